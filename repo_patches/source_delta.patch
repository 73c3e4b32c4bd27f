From fd709bceacef0430d07b3e7b77d4abfb5857b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 01/15] fix: try_to_yamd refuses an End that does not match the
 node it closes

The documentation of UnbalancedOpStream promises an error for such a stream,
but the mismatch was ignored and content silently dropped.
---
 src/op/to_yamd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index 4cc0629..aec60a3 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -430,8 +430,8 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                             items.push(item);
                         }
                     }
-                    // coverage: defensive catchall for any (Node, Frame) mismatch; indicates a programmer or parser error
-                    _ => {}
+                    // an End that does not match the frame it closes
+                    _ => return Err(UnbalancedOpStream),
                 }
             }
         }
-- 
2.43.0


From 4b520e3853a6067934c1db1cd09ba0e3dab8d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 02/15] fix: escape a paragraph that starts like a heading of
 level 2 to 6

Only a leading '# ' was escaped, so a paragraph whose text starts with '## '
was rendered as, and read back as, a heading.
---
 src/nodes/paragraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index 292814f..4dd232f 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -169,9 +169,11 @@ impl Display for Paragraph {
 /// container-specific closer escape (e.g. Highlight's universal `!!` escape),
 /// because those escapes can rewrite the leading characters.
 pub(crate) fn escape_leading_block_marker(s: String) -> String {
+    let after_hashes = s.trim_start_matches('#');
+    let hashes = s.len() - after_hashes.len();
     if s.starts_with("- ")
         || s.starts_with("+ ")
-        || s.starts_with("# ")
+        || ((1..=6).contains(&hashes) && after_hashes.starts_with(' '))
         || s.starts_with("!!")
         || s.starts_with("---")
     {
-- 
2.43.0


From 5b1ef4f2962ffc2a23e95d6c635c0bafe8e8fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 03/15] fix: escape '[' and a leading space in heading text

Heading text such as '[a](b)' was read back as an anchor, and a heading whose
text starts with a space as a paragraph.
---
 src/nodes/heading.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index 25b6769..47746f8 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -35,6 +35,7 @@ impl Display for HeadingNodes {
                     text.replace("\\", "\\\\")
                         .replace("\n\n", "\\\n\n")
                         .replace("#", "\\#")
+                        .replace("[", "\\[")
                 )
             }
             HeadingNodes::Anchor(anchor) => write!(f, "{}", anchor),
@@ -81,7 +82,11 @@ impl Heading {
 
 impl Display for Heading {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let body: String = self.body.iter().map(|n| n.to_string()).collect();
+        let mut body: String = self.body.iter().map(|n| n.to_string()).collect();
+        // exactly one space separates the hashes from the text
+        if body.starts_with(' ') {
+            body.insert(0, '\\');
+        }
         write!(f, "{} {}", "#".repeat(self.level as usize), body)
     }
 }
-- 
2.43.0


From a2422e42bf4526c9acfc9f525e290fc09a5f2732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 04/15] fix: render titles, icons and empty highlights so that
 they read back

A title or icon holding a line break or starting with a space, a highlight
without paragraphs, and a first paragraph starting with '! ' or a line break
were rendered as something else.
---
 src/nodes/collapsible.rs |  7 +++++--
 src/nodes/highlight.rs   | 39 +++++++++++++++++++++++----------------
 src/nodes/paragraph.rs   | 14 ++++++++++++++
 3 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/nodes/collapsible.rs b/src/nodes/collapsible.rs
index e89a538..f837822 100644
--- a/src/nodes/collapsible.rs
+++ b/src/nodes/collapsible.rs
@@ -3,7 +3,10 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{YamdNodes, paragraph::escape_leading_block_marker};
+use super::{
+    YamdNodes,
+    paragraph::{escape_leading_block_marker, escape_line},
+};
 
 /// # Collapsible
 ///
@@ -56,7 +59,7 @@ impl Display for Collapsible {
         write!(
             f,
             "{{% {}\n{}\n%}}",
-            self.title.replace("\\", "\\\\").replace("%}", "\\%}"),
+            escape_line(&self.title).replace("%}", "\\%}"),
             self.body
                 .iter()
                 .map(|node| match node {
diff --git a/src/nodes/highlight.rs b/src/nodes/highlight.rs
index 0204c2f..af1ee9e 100644
--- a/src/nodes/highlight.rs
+++ b/src/nodes/highlight.rs
@@ -3,7 +3,10 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{Paragraph, paragraph::escape_leading_block_marker};
+use super::{
+    Paragraph,
+    paragraph::{escape_leading_block_marker, escape_line},
+};
 
 /// # Highlight
 ///
@@ -77,21 +80,25 @@ impl Display for Highlight {
         let title = self
             .title
             .as_ref()
-            .map_or("".to_string(), |t| format!(" {}", t.replace("\\", "\\\\")));
-        let icon = self.icon.as_ref().map_or("".to_string(), |i| {
-            format!("! {}\n", i.replace("\\", "\\\\"))
-        });
-        write!(
-            f,
-            "!!{}\n{}{}\n!!",
-            title,
-            icon,
-            self.body
-                .iter()
-                .map(|p| escape_leading_block_marker(p.to_string().replace("!!", "\\!!")))
-                .collect::<Vec<_>>()
-                .join("\n\n")
-        )
+            .map_or("".to_string(), |t| format!(" {}", escape_line(t)));
+        let icon = self
+            .icon
+            .as_ref()
+            .map_or("".to_string(), |i| format!("! {}\n", escape_line(i)));
+        let body = self
+            .body
+            .iter()
+            .map(|p| escape_leading_block_marker(p.to_string().replace("!!", "\\!!")))
+            .collect::<Vec<_>>()
+            .join("\n\n");
+        // a first paragraph must not read as the icon line, nor end the line above it
+        let escape = if body.starts_with('\n') || (self.icon.is_none() && body.starts_with("! ")) {
+            "\\"
+        } else {
+            ""
+        };
+        let sep = if self.body.is_empty() { "" } else { "\n" };
+        write!(f, "!!{}\n{}{}{}{}!!", title, icon, escape, body, sep)
     }
 }
 
diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index 4dd232f..09f6ecf 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -183,6 +183,20 @@ pub(crate) fn escape_leading_block_marker(s: String) -> String {
     }
 }
 
+/// Escapes text that must stay on the line of its marker (a title or an icon): a
+/// leading space would be taken for the marker's own, a line break would end it.
+pub(crate) fn escape_line(s: &str) -> String {
+    let escaped = s
+        .replace("\\", "\\\\")
+        .replace("\n", "\\\n")
+        .replace("\r", "\\\r");
+    if escaped.starts_with(' ') {
+        format!("\\{}", escaped)
+    } else {
+        escaped
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::nodes::{
-- 
2.43.0


From a9e1cc757d3e760de19a09e978701f0e40c42cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 05/15] fix: keep a line break at the start of a code block's
 text

It merged with the line break after the opening fence and was lost.
---
 src/nodes/code.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nodes/code.rs b/src/nodes/code.rs
index 97bfa14..b201952 100644
--- a/src/nodes/code.rs
+++ b/src/nodes/code.rs
@@ -48,14 +48,18 @@ impl Code {
 
 impl Display for Code {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        let code = self.code.replace("\\", "\\\\").replace("```", "\\```");
+        // a line break here would merge with the one that ends the first line
+        let escape = if code.starts_with('\n') { "\\" } else { "" };
         write!(
             f,
-            "```{}\n{}\n```",
+            "```{}\n{}{}\n```",
             self.lang
                 .replace("\\", "\\\\")
                 .replace("`", "\\`")
                 .replace("\n", "\\\n"),
-            self.code.replace("\\", "\\\\").replace("```", "\\```")
+            escape,
+            code
         )
     }
 }
-- 
2.43.0


From 618331787795d0127b7977fe634f8de8ef10e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 06/15] fix: escape every line of a list item that reads as a
 list marker

Only markers of the list's own kind at level 0 were escaped, so an item text
with a line such as ' - x' was read back as a nested list; and an item text
starting with a space was read back as a paragraph.
---
 src/nodes/list.rs      | 68 +++++++++++++++++++++++++++++++-----------
 src/nodes/list_item.rs |  6 ++--
 2 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/src/nodes/list.rs b/src/nodes/list.rs
index 29b8e62..6840fd3 100644
--- a/src/nodes/list.rs
+++ b/src/nodes/list.rs
@@ -152,24 +152,56 @@ impl List {
 
 impl Display for List {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let (pat, rep) = match self.list_type {
-            ListTypes::Unordered => ("\n- ", "\n\\- "),
-            ListTypes::Ordered => ("\n+ ", "\n\\+ "),
-        };
-        write!(
-            f,
-            "{}",
-            self.body
-                .iter()
-                .map(|list_item| format!(
-                    "{}{} {}",
-                    " ".repeat(self.level),
-                    self.list_type,
-                    list_item.to_string().replace(pat, rep)
-                ))
-                .collect::<Vec<_>>()
-                .join("\n")
-        )
+        for (i, item) in self.body.iter().enumerate() {
+            if i > 0 {
+                f.write_str("\n")?;
+            }
+            let text: String = item.text.iter().map(|t| t.to_string()).collect();
+            write!(
+                f,
+                "{}{} {}",
+                " ".repeat(self.level),
+                self.list_type,
+                self.escape_item_text(&text)
+            )?;
+            if let Some(nested) = &item.nested_list {
+                write!(f, "\n{}", nested)?;
+            }
+        }
+        Ok(())
+    }
+}
+
+impl List {
+    /// Escapes what would end an item's text: a line that reads as a marker of this list, of a
+    /// list around it, or of a nested one. A leading space is escaped too, since the marker is
+    /// followed by exactly one.
+    fn escape_item_text(&self, text: &str) -> String {
+        let mut res = String::with_capacity(text.len());
+        for (i, line) in text.split('\n').enumerate() {
+            if i > 0 {
+                res.push('\n');
+            }
+            let rest = line.trim_start_matches(' ');
+            let level = line.len() - rest.len();
+            let own = self.level == level;
+            let marker = (rest.starts_with("- ")
+                && (!own || self.list_type == ListTypes::Unordered))
+                || (rest.starts_with("+ ") && (!own || self.list_type == ListTypes::Ordered));
+            if i == 0 {
+                if level > 0 {
+                    res.push('\\');
+                }
+                res.push_str(line);
+            } else if marker && level <= self.level + 1 {
+                res.push_str(&line[..level]);
+                res.push('\\');
+                res.push_str(rest);
+            } else {
+                res.push_str(line);
+            }
+        }
+        res
     }
 }
 
diff --git a/src/nodes/list_item.rs b/src/nodes/list_item.rs
index 38e4d30..2d579c5 100644
--- a/src/nodes/list_item.rs
+++ b/src/nodes/list_item.rs
@@ -23,9 +23,9 @@ use super::{List, ParagraphNodes};
 /// # Round-trip invariant
 ///
 /// The grammar requires exactly one space between the list marker and the item
-/// text, so a `ListItem` whose `text` begins with whitespace cannot be produced
-/// by parsing any source document. Constructing such a value is permitted, but
-/// serializing and re-parsing it will not yield an equal value.
+/// text, so a [`List`] escapes the leading space of a `text` that begins with one.
+/// A line break that ends `text` belongs to the list, not to the item: it is not
+/// kept when the list is serialized and parsed again.
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct ListItem {
-- 
2.43.0


From eda0b9f1a75a41e0dc5ce5ad8eeb898afd98210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 07/15] fix: keep the line break that ends a paragraph or
 heading before another block

It merged with the blank line that separates blocks and moved to, or out of,
the next block; likewise one that starts a collapsible's body.
---
 src/nodes/collapsible.rs | 22 ++++++++++++----------
 src/nodes/paragraph.rs   | 12 ++++++++++++
 src/nodes/yamd.rs        | 19 +++++++++++++++----
 3 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/nodes/collapsible.rs b/src/nodes/collapsible.rs
index f837822..ee01c6b 100644
--- a/src/nodes/collapsible.rs
+++ b/src/nodes/collapsible.rs
@@ -5,7 +5,7 @@ use serde::{Deserialize, Serialize};
 
 use super::{
     YamdNodes,
-    paragraph::{escape_leading_block_marker, escape_line},
+    paragraph::{escape_line, escape_trailing_line_break},
 };
 
 /// # Collapsible
@@ -56,18 +56,20 @@ impl Collapsible {
 
 impl Display for Collapsible {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        let body = self
+            .body
+            .iter()
+            .map(|node| escape_trailing_line_break(node.to_block()))
+            .collect::<Vec<_>>()
+            .join("\n\n");
+        // a line break here would merge with the one that ends the title
+        let escape = if body.starts_with('\n') { "\\" } else { "" };
         write!(
             f,
-            "{{% {}\n{}\n%}}",
+            "{{% {}\n{}{}\n%}}",
             escape_line(&self.title).replace("%}", "\\%}"),
-            self.body
-                .iter()
-                .map(|node| match node {
-                    YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
-                    other => other.to_string(),
-                })
-                .collect::<Vec<_>>()
-                .join("\n\n")
+            escape,
+            body
         )
     }
 }
diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index 09f6ecf..5411b95 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -183,6 +183,18 @@ pub(crate) fn escape_leading_block_marker(s: String) -> String {
     }
 }
 
+/// Escapes a line break that ends a block which something follows: it would merge with
+/// the one that separates them.
+pub(crate) fn escape_trailing_line_break(mut s: String) -> String {
+    if let Some(rest) = s.strip_suffix(['\n', '\r']) {
+        let backslashes = rest.len() - rest.trim_end_matches('\\').len();
+        if backslashes % 2 == 0 {
+            s.insert(rest.len(), '\\');
+        }
+    }
+    s
+}
+
 /// Escapes text that must stay on the line of its marker (a title or an icon): a
 /// leading space would be taken for the marker's own, a line break would end it.
 pub(crate) fn escape_line(s: &str) -> String {
diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index cbebe51..5ccc197 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -5,7 +5,7 @@ use serde::{Deserialize, Serialize};
 
 use super::{
     Code, Collapsible, Embed, Heading, Highlight, Image, Images, List, Paragraph, ThematicBreak,
-    paragraph::escape_leading_block_marker,
+    paragraph::{escape_leading_block_marker, escape_trailing_line_break},
 };
 
 #[derive(Debug, PartialEq, Clone, Eq)]
@@ -84,6 +84,16 @@ impl From<Collapsible> for YamdNodes {
     }
 }
 
+impl YamdNodes {
+    /// Serializes the node as a block of a document or a collapsible.
+    pub(crate) fn to_block(&self) -> String {
+        match self {
+            YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
+            other => other.to_string(),
+        }
+    }
+}
+
 impl Display for YamdNodes {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
@@ -268,9 +278,10 @@ impl Display for Yamd {
         let body = self
             .body
             .iter()
-            .map(|node| match node {
-                YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
-                other => other.to_string(),
+            .enumerate()
+            .map(|(i, node)| match node.to_block() {
+                last if i + 1 == self.body.len() => last,
+                block => escape_trailing_line_break(block),
             })
             .collect::<Vec<_>>()
             .join("\n\n");
-- 
2.43.0


From cb97a1f833ece9919ffbb6e62cb8fd6517e3542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 08/15] fix: escape every second line break of a run in inline
 text

---
 src/nodes/anchor.rs        | 4 +++-
 src/nodes/bold.rs          | 1 +
 src/nodes/code_span.rs     | 1 +
 src/nodes/emphasis.rs      | 1 +
 src/nodes/heading.rs       | 1 +
 src/nodes/image.rs         | 4 +++-
 src/nodes/italic.rs        | 1 +
 src/nodes/strikethrough.rs | 1 +
 8 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nodes/anchor.rs b/src/nodes/anchor.rs
index 57ef22e..f3d63c6 100644
--- a/src/nodes/anchor.rs
+++ b/src/nodes/anchor.rs
@@ -57,12 +57,14 @@ impl Display for Anchor {
                 .replace("\\", "\\\\")
                 .replace("[", "\\[")
                 .replace("]", "\\]")
-                .replace("\n\n", "\\\n\n"),
+                .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n"),
             self.url
                 .replace("\\", "\\\\")
                 .replace("(", "\\(")
                 .replace(")", "\\)")
                 .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n")
         )
     }
 }
diff --git a/src/nodes/bold.rs b/src/nodes/bold.rs
index 297b665..b872952 100644
--- a/src/nodes/bold.rs
+++ b/src/nodes/bold.rs
@@ -46,6 +46,7 @@ impl Display for BoldNodes {
                         .replace("_", "\\_")
                         .replace("~", "\\~")
                         .replace("\n\n", "\\\n\n")
+                        .replace("\n\n\n", "\n\n\\\n")
                 )
             }
         }
diff --git a/src/nodes/code_span.rs b/src/nodes/code_span.rs
index 7d142e9..e429e63 100644
--- a/src/nodes/code_span.rs
+++ b/src/nodes/code_span.rs
@@ -51,6 +51,7 @@ impl Display for CodeSpan {
                 .replace("\\", "\\\\")
                 .replace("`", "\\`")
                 .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n")
         )
     }
 }
diff --git a/src/nodes/emphasis.rs b/src/nodes/emphasis.rs
index 7d59484..25379ea 100644
--- a/src/nodes/emphasis.rs
+++ b/src/nodes/emphasis.rs
@@ -48,6 +48,7 @@ impl Display for Emphasis {
                 .replace("\\", "\\\\")
                 .replace("*", "\\*")
                 .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n")
         )
     }
 }
diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index 47746f8..e4890bb 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -34,6 +34,7 @@ impl Display for HeadingNodes {
                     "{}",
                     text.replace("\\", "\\\\")
                         .replace("\n\n", "\\\n\n")
+                        .replace("\n\n\n", "\n\n\\\n")
                         .replace("#", "\\#")
                         .replace("[", "\\[")
                 )
diff --git a/src/nodes/image.rs b/src/nodes/image.rs
index 6b24e32..3696d98 100644
--- a/src/nodes/image.rs
+++ b/src/nodes/image.rs
@@ -57,12 +57,14 @@ impl Display for Image {
             self.alt
                 .replace("\\", "\\\\")
                 .replace("]", "\\]")
-                .replace("\n\n", "\\\n\n"),
+                .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n"),
             self.src
                 .replace("\\", "\\\\")
                 .replace("(", "\\(")
                 .replace(")", "\\)")
                 .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n")
         )
     }
 }
diff --git a/src/nodes/italic.rs b/src/nodes/italic.rs
index b13c9b4..34a7b2e 100644
--- a/src/nodes/italic.rs
+++ b/src/nodes/italic.rs
@@ -47,6 +47,7 @@ impl Display for Italic {
                 .replace("\\", "\\\\")
                 .replace("_", "\\_")
                 .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n")
         )
     }
 }
diff --git a/src/nodes/strikethrough.rs b/src/nodes/strikethrough.rs
index f8fefab..92b404c 100644
--- a/src/nodes/strikethrough.rs
+++ b/src/nodes/strikethrough.rs
@@ -48,6 +48,7 @@ impl Display for Strikethrough {
                 .replace("\\", "\\\\")
                 .replace("~", "\\~")
                 .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n")
         )
     }
 }
-- 
2.43.0


From ebf8c7ecf2134786fdd3d22612621d47b167c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 09/15] fix: escape '%}' in every inline text, so that it
 cannot close a collapsible

---
 src/nodes/anchor.rs        | 4 +++-
 src/nodes/bold.rs          | 1 +
 src/nodes/code_span.rs     | 1 +
 src/nodes/embed.rs         | 3 ++-
 src/nodes/emphasis.rs      | 1 +
 src/nodes/heading.rs       | 1 +
 src/nodes/image.rs         | 4 +++-
 src/nodes/italic.rs        | 1 +
 src/nodes/strikethrough.rs | 1 +
 9 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/nodes/anchor.rs b/src/nodes/anchor.rs
index f3d63c6..49dceed 100644
--- a/src/nodes/anchor.rs
+++ b/src/nodes/anchor.rs
@@ -58,13 +58,15 @@ impl Display for Anchor {
                 .replace("[", "\\[")
                 .replace("]", "\\]")
                 .replace("\n\n", "\\\n\n")
-                .replace("\n\n\n", "\n\n\\\n"),
+                .replace("\n\n\n", "\n\n\\\n")
+                .replace("%}", "\\%}"),
             self.url
                 .replace("\\", "\\\\")
                 .replace("(", "\\(")
                 .replace(")", "\\)")
                 .replace("\n\n", "\\\n\n")
                 .replace("\n\n\n", "\n\n\\\n")
+                .replace("%}", "\\%}")
         )
     }
 }
diff --git a/src/nodes/bold.rs b/src/nodes/bold.rs
index b872952..8be5fc5 100644
--- a/src/nodes/bold.rs
+++ b/src/nodes/bold.rs
@@ -47,6 +47,7 @@ impl Display for BoldNodes {
                         .replace("~", "\\~")
                         .replace("\n\n", "\\\n\n")
                         .replace("\n\n\n", "\n\n\\\n")
+                        .replace("%}", "\\%}")
                 )
             }
         }
diff --git a/src/nodes/code_span.rs b/src/nodes/code_span.rs
index e429e63..3d2e890 100644
--- a/src/nodes/code_span.rs
+++ b/src/nodes/code_span.rs
@@ -52,6 +52,7 @@ impl Display for CodeSpan {
                 .replace("`", "\\`")
                 .replace("\n\n", "\\\n\n")
                 .replace("\n\n\n", "\n\n\\\n")
+                .replace("%}", "\\%}")
         )
     }
 }
diff --git a/src/nodes/embed.rs b/src/nodes/embed.rs
index 3a5e545..d3f4f0c 100644
--- a/src/nodes/embed.rs
+++ b/src/nodes/embed.rs
@@ -48,7 +48,8 @@ impl Display for Embed {
             self.kind
                 .replace("\\", "\\\\")
                 .replace("{", "\\{")
-                .replace("|", "\\|"),
+                .replace("|", "\\|")
+                .replace("%}", "\\%}"),
             self.args
                 .replace("\\", "\\\\")
                 .replace("{", "\\{")
diff --git a/src/nodes/emphasis.rs b/src/nodes/emphasis.rs
index 25379ea..fc7c05e 100644
--- a/src/nodes/emphasis.rs
+++ b/src/nodes/emphasis.rs
@@ -49,6 +49,7 @@ impl Display for Emphasis {
                 .replace("*", "\\*")
                 .replace("\n\n", "\\\n\n")
                 .replace("\n\n\n", "\n\n\\\n")
+                .replace("%}", "\\%}")
         )
     }
 }
diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index e4890bb..83c0905 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -35,6 +35,7 @@ impl Display for HeadingNodes {
                     text.replace("\\", "\\\\")
                         .replace("\n\n", "\\\n\n")
                         .replace("\n\n\n", "\n\n\\\n")
+                        .replace("%}", "\\%}")
                         .replace("#", "\\#")
                         .replace("[", "\\[")
                 )
diff --git a/src/nodes/image.rs b/src/nodes/image.rs
index 3696d98..4bdf85b 100644
--- a/src/nodes/image.rs
+++ b/src/nodes/image.rs
@@ -58,13 +58,15 @@ impl Display for Image {
                 .replace("\\", "\\\\")
                 .replace("]", "\\]")
                 .replace("\n\n", "\\\n\n")
-                .replace("\n\n\n", "\n\n\\\n"),
+                .replace("\n\n\n", "\n\n\\\n")
+                .replace("%}", "\\%}"),
             self.src
                 .replace("\\", "\\\\")
                 .replace("(", "\\(")
                 .replace(")", "\\)")
                 .replace("\n\n", "\\\n\n")
                 .replace("\n\n\n", "\n\n\\\n")
+                .replace("%}", "\\%}")
         )
     }
 }
diff --git a/src/nodes/italic.rs b/src/nodes/italic.rs
index 34a7b2e..9e18036 100644
--- a/src/nodes/italic.rs
+++ b/src/nodes/italic.rs
@@ -48,6 +48,7 @@ impl Display for Italic {
                 .replace("_", "\\_")
                 .replace("\n\n", "\\\n\n")
                 .replace("\n\n\n", "\n\n\\\n")
+                .replace("%}", "\\%}")
         )
     }
 }
diff --git a/src/nodes/strikethrough.rs b/src/nodes/strikethrough.rs
index 92b404c..0005516 100644
--- a/src/nodes/strikethrough.rs
+++ b/src/nodes/strikethrough.rs
@@ -49,6 +49,7 @@ impl Display for Strikethrough {
                 .replace("~", "\\~")
                 .replace("\n\n", "\\\n\n")
                 .replace("\n\n\n", "\n\n\\\n")
+                .replace("%}", "\\%}")
         )
     }
 }
-- 
2.43.0


From dae505ba020c5a5e5075fded23910d3c43c0b3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 10/15] fix: escape a paragraph that starts like an image

---
 src/nodes/paragraph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index 5411b95..327433c 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -175,6 +175,7 @@ pub(crate) fn escape_leading_block_marker(s: String) -> String {
         || s.starts_with("+ ")
         || ((1..=6).contains(&hashes) && after_hashes.starts_with(' '))
         || s.starts_with("!!")
+        || s.starts_with("![")
         || s.starts_with("---")
     {
         format!("\\{}", s)
-- 
2.43.0


From 09e1fbc6f17b13aa48998270c921791ca65ca375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 11/15] fix: escape backslashes and fences in metadata

---
 src/nodes/yamd.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index 5ccc197..7536b2b 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -287,6 +287,11 @@ impl Display for Yamd {
             .join("\n\n");
         match &self.metadata {
             Some(metadata) => {
+                let mut metadata = metadata.replace("\\", "\\\\").replace("\n---", "\n\\---");
+                // nothing in the metadata must read as its closing fence
+                if metadata.starts_with("---") {
+                    metadata.insert(0, '\\');
+                }
                 let sep = if metadata.ends_with('\n') { "" } else { "\n" };
                 write!(f, "---\n{}{}---\n\n{}", metadata, sep, body)
             }
-- 
2.43.0


From 15cd54917371fa9b1f866e6414935859c3d17538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 12/15] fix: leave no carriage return behind when a Windows
 line break is trimmed

---
 src/op/to_yamd.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index aec60a3..f4d647f 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -283,7 +283,7 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         }
                     }
                     (Node::Metadata, Frame::Metadata { text }) => {
-                        let metadata = text.trim_matches('\n').to_owned();
+                        let metadata = trim_line_breaks(&text).to_owned();
                         if let Some(Frame::Yamd { metadata: m, .. }) = stack.last_mut() {
                             *m = Some(metadata);
                         }
@@ -376,7 +376,7 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         push_yamd_node(&mut stack, Images::new(images).into());
                     }
                     (Node::Code, Frame::Code { lang, code }) => {
-                        let code = code.trim_end_matches('\n').to_owned();
+                        let code = trim_trailing_line_breaks(&code).to_owned();
                         push_yamd_node(&mut stack, Code::new(lang, code).into());
                     }
                     (Node::Modifier, Frame::Modifier { text }) => {
@@ -449,9 +449,26 @@ fn extract_heading_level(content: &Content, source: &str) -> u8 {
     s.chars().take_while(|&c| c == '#').count() as u8
 }
 
+/// Strips the line breaks (`\n` or `\r\n`) that end `text`.
+fn trim_trailing_line_breaks(mut text: &str) -> &str {
+    while let Some(rest) = text.strip_suffix('\n') {
+        text = rest.strip_suffix('\r').unwrap_or(rest);
+    }
+    text
+}
+
+/// Strips the line breaks (`\n` or `\r\n`) that start and end `text`.
+fn trim_line_breaks(text: &str) -> &str {
+    let mut text = trim_trailing_line_breaks(text);
+    while let Some(rest) = text.strip_prefix("\r\n").or(text.strip_prefix('\n')) {
+        text = rest;
+    }
+    text
+}
+
 fn trim_trailing_newline_from_text(body: &mut Vec<ParagraphNodes>) {
     if let Some(ParagraphNodes::Text(t)) = body.last_mut() {
-        let trimmed = t.trim_end_matches('\n');
+        let trimmed = trim_trailing_line_breaks(t);
         if trimmed.is_empty() {
             body.pop();
         } else {
-- 
2.43.0


From 69e2a50dda346fcab0cdaa7eb526c9a47639d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 13/15] fix: blank lines in a highlight are not an empty
 paragraph

---
 src/op/to_yamd.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index f4d647f..77d6bb7 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -296,7 +296,10 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         match top {
                             Frame::Highlight { paragraphs, .. } => {
                                 trim_trailing_newline_from_text(&mut body);
-                                paragraphs.push(Paragraph::new(body));
+                                // blank lines are not a paragraph
+                                if !body.is_empty() {
+                                    paragraphs.push(Paragraph::new(body));
+                                }
                             }
                             Frame::ListItem { text, .. } => {
                                 trim_trailing_newline_from_text(&mut body);
-- 
2.43.0


From b9af36591f6155bf6d30d8cb933b58f4a7ad1d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 14/15] fix: keep a Windows line break at the start of code and
 container bodies

---
 src/nodes/code.rs        |  6 +++++-
 src/nodes/collapsible.rs |  6 +++++-
 src/nodes/highlight.rs   | 11 ++++++-----
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/nodes/code.rs b/src/nodes/code.rs
index b201952..2444a57 100644
--- a/src/nodes/code.rs
+++ b/src/nodes/code.rs
@@ -50,7 +50,11 @@ impl Display for Code {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let code = self.code.replace("\\", "\\\\").replace("```", "\\```");
         // a line break here would merge with the one that ends the first line
-        let escape = if code.starts_with('\n') { "\\" } else { "" };
+        let escape = if code.starts_with(['\n', '\r']) {
+            "\\"
+        } else {
+            ""
+        };
         write!(
             f,
             "```{}\n{}{}\n```",
diff --git a/src/nodes/collapsible.rs b/src/nodes/collapsible.rs
index ee01c6b..ef6bee5 100644
--- a/src/nodes/collapsible.rs
+++ b/src/nodes/collapsible.rs
@@ -63,7 +63,11 @@ impl Display for Collapsible {
             .collect::<Vec<_>>()
             .join("\n\n");
         // a line break here would merge with the one that ends the title
-        let escape = if body.starts_with('\n') { "\\" } else { "" };
+        let escape = if body.starts_with(['\n', '\r']) {
+            "\\"
+        } else {
+            ""
+        };
         write!(
             f,
             "{{% {}\n{}{}\n%}}",
diff --git a/src/nodes/highlight.rs b/src/nodes/highlight.rs
index af1ee9e..8a148f4 100644
--- a/src/nodes/highlight.rs
+++ b/src/nodes/highlight.rs
@@ -92,11 +92,12 @@ impl Display for Highlight {
             .collect::<Vec<_>>()
             .join("\n\n");
         // a first paragraph must not read as the icon line, nor end the line above it
-        let escape = if body.starts_with('\n') || (self.icon.is_none() && body.starts_with("! ")) {
-            "\\"
-        } else {
-            ""
-        };
+        let escape =
+            if body.starts_with(['\n', '\r']) || (self.icon.is_none() && body.starts_with("! ")) {
+                "\\"
+            } else {
+                ""
+            };
         let sep = if self.body.is_empty() { "" } else { "\n" };
         write!(f, "!!{}\n{}{}{}{}!!", title, icon, escape, body, sep)
     }
-- 
2.43.0


From 3a9068ef5467a7faabfbbdb48e6fabe4524aa3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 15/15] fix: a nested collapsible may be empty

---
 src/op/collapsible.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/op/collapsible.rs b/src/op/collapsible.rs
index 310f83d..f86b554 100644
--- a/src/op/collapsible.rs
+++ b/src/op/collapsible.rs
@@ -35,7 +35,8 @@ pub fn collapsible(p: &mut Parser) -> bool {
     let start_content = p.span(start_range);
     p.ops.push(Op::new_start(Node::Collapsible, start_content));
 
-    modifier(p);
+    // the title's line ends where it ends, also when the next line closes an outer collapsible
+    p.with_no_stops(modifier);
 
     if !p.at(|t: &Token| t.position.column == 0) {
         p.pos = start;
-- 
2.43.0

