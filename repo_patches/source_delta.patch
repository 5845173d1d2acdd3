From 081fe888c3548f455997ba5e7ee08d9152a1d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 01/39] fix: SliceIter::next_back yielded the position one past
 the item

The cmap encoding records were therefore read shifted by one: the last one
was garbage and the first one was never considered.
---
 victor/src/fonts/parsing.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index 580ad9d..9afba31 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -275,13 +275,12 @@ impl<T> Iterator for SliceIter<T> {
 impl<T> DoubleEndedIterator for SliceIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         if self.start != self.end {
-            let next = self.end;
-            let byte_position = next.byte_position - mem::size_of::<T>() as u32;
+            let byte_position = self.end.byte_position - mem::size_of::<T>() as u32;
             self.end = Position {
                 byte_position,
                 ty: PhantomData,
             };
-            Some(next)
+            Some(self.end)
         } else {
             None
         }
-- 
2.43.0


From c01ba438a226be4deccec5fc939cb5e5a090dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 02/39] fix: escape the number sign in PDF names

---
 victor/src/pdf/object.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 1e17745..d121603 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -243,8 +243,9 @@ fn write_name<W: Write>(name: &[u8], w: &mut W) -> io::Result<()> {
     w.write_all(b"/")?;
     for &byte in name {
         match KIND[byte as usize] {
-            CharKind::Regular => w.write_all(&[byte])?,
-            CharKind::Whitespace | CharKind::Delimiter => {
+            // The escape character itself must be escaped
+            CharKind::Regular if byte != b'#' => w.write_all(&[byte])?,
+            _ => {
                 w.write_all(b"#")?;
                 write_hex(byte, w)?
             }
-- 
2.43.0


From 39ec4cadcefd77b56b27ddb012ce9243243ea4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 03/39] fix: never write numbers that are not valid PDF syntax

dtoa switches to exponent notation for small and large numbers.
---
 victor/src/pdf/object.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index d121603..0bd660a 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -153,7 +153,7 @@ impl<'a> Object<'a> {
             // https://www.adobe.com/content/dam/acom/en/devnet/pdf/PDF32000_2008.pdf#G6.1965566
             Object::I32(value) => itoa::write(w, value).map(|_| ()),
             Object::Usize(value) => itoa::write(w, value).map(|_| ()),
-            Object::Float(value) => dtoa::write(w, value).map(|_| ()),
+            Object::Float(value) => write_float(value, w),
             Object::Name(value) => write_name(value, w),
             Object::Dictionary(ref value) => value.write(w),
             Object::LiteralString(value) => {
@@ -231,6 +231,22 @@ impl<'a> Dictionary<'a> {
     }
 }
 
+/// PDF numbers have no exponent notation, and no infinity or NaN.
+fn write_float<W: Write>(value: f32, w: &mut W) -> io::Result<()> {
+    if value.is_nan() {
+        return w.write_all(b"0");
+    }
+    let value = value.max(std::f32::MIN).min(std::f32::MAX);
+    let mut buffer = Vec::new();
+    dtoa::write(&mut buffer, value)?;
+    if buffer.contains(&b'e') {
+        // Unlike dtoa, this never uses an exponent
+        write!(w, "{}", value)
+    } else {
+        w.write_all(&buffer)
+    }
+}
+
 fn write_hex<W: Write>(byte: u8, w: &mut W) -> io::Result<()> {
     const HEX_DIGITS: [u8; 16] = *b"0123456789ABCDEF";
     w.write_all(&[
-- 
2.43.0


From f0e6b4bc70f574134d097f6a9ab40f8454d664d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 04/39] fix: no blank page after text that ends at the bottom
 of a page

---
 victor/src/text_plain.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/victor/src/text_plain.rs b/victor/src/text_plain.rs
index 7061da5..8e7854b 100644
--- a/victor/src/text_plain.rs
+++ b/victor/src/text_plain.rs
@@ -125,6 +125,11 @@ pub fn layout(text: &str, style: &Style) -> Result<Document, FontError> {
             y += line_height;
             if y > max_y {
                 // We’ve reached the bottom of the page
+                match segments.next() {
+                    Some(next) => segments.rewind(next),
+                    // … and the end of the document: don’t add a blank page.
+                    None => break 'pages,
+                }
                 break;
             }
         }
-- 
2.43.0


From 9df90746972be55184e04d4c375cfc34e71fcff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 05/39] fix: no arithmetic overflow on out-of-range offsets in
 font files

---
 victor/src/fonts/parsing.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index 9afba31..7ea2551 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -42,15 +42,16 @@ impl<T> Position<T> {
         }
     }
 
+    /// Saturates rather than overflow: no font can be read at the resulting position.
     pub(in crate::fonts) fn offset_bytes<U, O: Into<u32>>(self, by: O) -> Position<U> {
         Position {
-            byte_position: self.byte_position + by.into(),
+            byte_position: self.byte_position.saturating_add(by.into()),
             ty: PhantomData,
         }
     }
 
     pub(in crate::fonts) fn offset<O: Into<u32>>(self, by: O) -> Position<T> {
-        self.offset_bytes(mem::size_of::<T>() as u32 * by.into())
+        self.offset_bytes((mem::size_of::<T>() as u32).saturating_mul(by.into()))
     }
 
     pub(in crate::fonts) fn followed_by<U>(self) -> Position<U> {
@@ -262,7 +263,7 @@ impl<T> Iterator for SliceIter<T> {
     type Item = Position<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.start != self.end {
+        if self.start.byte_position < self.end.byte_position {
             let next = self.start;
             self.start = next.followed_by();
             Some(next)
@@ -274,8 +275,11 @@ impl<T> Iterator for SliceIter<T> {
 
 impl<T> DoubleEndedIterator for SliceIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.start != self.end {
-            let byte_position = self.end.byte_position - mem::size_of::<T>() as u32;
+        if self.start.byte_position < self.end.byte_position {
+            let byte_position = self
+                .end
+                .byte_position
+                .saturating_sub(mem::size_of::<T>() as u32);
             self.end = Position {
                 byte_position,
                 ty: PhantomData,
-- 
2.43.0


From 9603486c4ae4881db3702c0047aa633c937b71f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 06/39] fix: no overflow, underflow or endless loop on
 inconsistent font cmap ranges

---
 victor/src/fonts/cmap.rs | 59 ++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/victor/src/fonts/cmap.rs b/victor/src/fonts/cmap.rs
index 3e3d729..9d0a7c0 100644
--- a/victor/src/fonts/cmap.rs
+++ b/victor/src/fonts/cmap.rs
@@ -2,7 +2,7 @@ use crate::fonts::parsing::{binary_search, Position, Slice};
 use crate::fonts::tables::*;
 use crate::fonts::{FontError, GlyphId};
 use std::char;
-use std::cmp::Ordering;
+use std::cmp::{self, Ordering};
 
 pub(in crate::fonts) enum Cmap {
     Format4(Format4),
@@ -131,22 +131,22 @@ impl Format4 {
     where
         F: FnMut(u32, u16),
     {
+        // Segments are sorted and do not overlap. If they do in an invalid font,
+        // don’t go through any code point more than once.
+        let mut next_code_point = 0;
         for segment_index in 0..self.segment_count {
             let start_code = self.start_codes.offset(segment_index).read_from(bytes)?;
             let end_code = self.end_codes.offset(segment_index).read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
+            let first = cmp::max(u32::from(start_code), next_code_point);
+            let end = u32::from(end_code) + 1;
+            for code_point in first..end {
                 if let Some(glyph_id) =
-                    self.glyph_id(bytes, segment_index, start_code, code_point)?
+                    self.glyph_id(bytes, segment_index, start_code, code_point as u16)?
                 {
-                    f(u32::from(code_point), glyph_id)
+                    f(code_point, glyph_id)
                 }
-
-                if code_point == end_code {
-                    break;
-                }
-                code_point += 1
             }
+            next_code_point = cmp::max(end, next_code_point);
         }
         Ok(())
     }
@@ -214,37 +214,44 @@ impl Format12 {
 
         if let Some(index) = result? {
             let group = self.groups.get_unchecked(index);
-            let id32 = group.start_glyph_id().read_from(bytes)?
-                + (code_point - group.start_char_code().read_from(bytes)?);
-            // Glyph IDs are 16 bits in PDF.
-            // For now, pretend that glyphs with larger IDs are missing.
-            // FIXME: Maybe this will be unnecessary with PDF font subsetting?
-            if id32 <= 0xFFFF {
-                return Ok(Some(id32 as u16));
-            }
+            return Ok(Self::glyph_id(
+                group.start_glyph_id().read_from(bytes)?,
+                code_point - group.start_char_code().read_from(bytes)?,
+            ));
         }
 
         Ok(None)
     }
 
+    fn glyph_id(start_glyph_id: u32, offset: u32) -> Option<u16> {
+        // Glyph IDs are 16 bits in PDF.
+        // For now, pretend that glyphs with larger IDs are missing.
+        // FIXME: Maybe this will be unnecessary with PDF font subsetting?
+        match start_glyph_id.checked_add(offset) {
+            Some(id32) if id32 <= 0xFFFF => Some(id32 as u16),
+            _ => None,
+        }
+    }
+
     fn each_code_point<F>(&self, bytes: &[u8], mut f: F) -> Result<(), FontError>
     where
         F: FnMut(u32, u16),
     {
+        // Groups are sorted and do not overlap. If they do in an invalid font,
+        // don’t go through any code point more than once.
+        let mut next_code_point = 0;
         for group in self.groups {
             let start_code = group.start_char_code().read_from(bytes)?;
             let end_code = group.end_char_code().read_from(bytes)?;
             let start_glyph_id = group.start_glyph_id().read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
-                let glyph_id = (code_point - start_code) + start_glyph_id;
-                f(code_point, glyph_id as u16);
-
-                if code_point == end_code {
-                    break;
+            let first = cmp::max(start_code, next_code_point);
+            let end = cmp::min(end_code, char::MAX as u32) + 1;
+            for code_point in first..end {
+                if let Some(glyph_id) = Self::glyph_id(start_glyph_id, code_point - start_code) {
+                    f(code_point, glyph_id)
                 }
-                code_point += 1;
             }
+            next_code_point = cmp::max(end, next_code_point);
         }
         Ok(())
     }
-- 
2.43.0


From 295039f06fba75f5d826d3346baaab187ef2e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 07/39] fix: move every child, not only the first, when the
 HTML parser reparents children

---
 victor/src/dom/html.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index b93a81d..cc290e1 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -202,8 +202,9 @@ impl TreeSink for Sink {
         let mut next_child = self.document[node].first_child;
         while let Some(child) = next_child {
             debug_assert_eq!(self.document[child].parent, Some(node));
-            self.document.append(new_parent, child);
-            next_child = self.document[child].next_sibling
+            // Appending to `new_parent` changes `next_sibling`
+            next_child = self.document[child].next_sibling;
+            self.document.append(new_parent, child)
         }
     }
 }
-- 
2.43.0


From 92ea44e8c9158c7ed0db75a61fdbaec5136f64a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 08/39] fix: match class selectors against each of the
 space-separated classes

---
 victor/src/style/selectors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/victor/src/style/selectors.rs b/victor/src/style/selectors.rs
index 07228b6..55a3417 100644
--- a/victor/src/style/selectors.rs
+++ b/victor/src/style/selectors.rs
@@ -232,7 +232,8 @@ impl<'a> selectors::Element for NodeRef<'a> {
             .unwrap()
             .get_attr(&local_name!("class"))
             .map_or(false, |attr| {
-                case_sensitivity.eq(class.as_bytes(), attr.as_bytes())
+                attr.split_ascii_whitespace()
+                    .any(|c| case_sensitivity.eq(class.as_bytes(), c.as_bytes()))
             })
     }
 
-- 
2.43.0


From 9982ced31f86f076b8061e3058af0390c8769dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 09/39] fix: ignore CSS declarations with unexpected tokens
 after a valid value

---
 victor/src/style/declaration_block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/victor/src/style/declaration_block.rs b/victor/src/style/declaration_block.rs
index 68699de..77e9233 100644
--- a/victor/src/style/declaration_block.rs
+++ b/victor/src/style/declaration_block.rs
@@ -100,6 +100,11 @@ impl<'i> DeclarationParser<'i> for LonghandDeclarationParser {
                 parsed = (data.parse)(parser, &mut self.block.declarations)?
             }
             let important = parser.r#try(cssparser::parse_important).is_ok();
+            if let Err(error) = parser.expect_exhausted() {
+                // The declaration as a whole is invalid
+                self.block.declarations.truncate(previous_len);
+                return Err(error.into());
+            }
             let count = self.block.declarations.len() - previous_len;
             assert!(count > 0);
             self.block.important.extend(repeat(important).take(count));
-- 
2.43.0


From c53b38c04a3cf3dbbdc6cea1d3e7110a16b6cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 10/39] fix: typo in the name of the border-right-color
 property

---
 victor/src/style/properties/definitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/style/properties/definitions.rs b/victor/src/style/properties/definitions.rs
index ad414d2..2568cfe 100644
--- a/victor/src/style/properties/definitions.rs
+++ b/victor/src/style/properties/definitions.rs
@@ -43,7 +43,7 @@ properties! {
         border_top_color { "border-top-color", Color, initial = Color::CurrentColor }
         border_left_color { "border-left-color", Color, initial = Color::CurrentColor }
         border_bottom_color { "border-bottom-color", Color, initial = Color::CurrentColor }
-        border_right_color { "border-color-right", Color, initial = Color::CurrentColor }
+        border_right_color { "border-right-color", Color, initial = Color::CurrentColor }
 
         border_top_style { "border-top-style", LineStyle, initial = LineStyle::None }
         border_left_style { "border-left-style", LineStyle, initial = LineStyle::None }
-- 
2.43.0


From cb75f9d72e2ce8789fbf689f92ebd4956037334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 11/39] fix: CSS keywords are matched ASCII-case-insensitively

---
 proc-macros/src/style.rs        | 6 +++---
 victor/src/style/values/box_.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/proc-macros/src/style.rs b/proc-macros/src/style.rs
index 901ac09..c9830a4 100644
--- a/proc-macros/src/style.rs
+++ b/proc-macros/src/style.rs
@@ -158,14 +158,14 @@ pub fn derive_parse(input: TokenStream) -> TokenStream {
     if !unit_variants.is_empty() {
         parse.extend(quote! {
             if let Ok(ident) = parser.r#try(|parser| parser.expect_ident_cloned()) {
-                match &*ident {
+                match_ignore_ascii_case!(&*ident,
                     #(
                         #keywords => return Ok(#unit_variants),
                     )*
                     _ => return Err(parser.new_unexpected_token_error(
-                        cssparser::Token::Ident(ident)
+                        cssparser::Token::Ident(ident.clone())
                     ))
-                }
+                )
             }
         })
     }
diff --git a/victor/src/style/values/box_.rs b/victor/src/style/values/box_.rs
index 4a5184d..8c4f1fb 100644
--- a/victor/src/style/values/box_.rs
+++ b/victor/src/style/values/box_.rs
@@ -78,7 +78,7 @@ impl Display {
 impl super::Parse for Display {
     fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> Result<Self, PropertyParseError<'i>> {
         let ident = parser.expect_ident()?;
-        match &**ident {
+        match_ignore_ascii_case!(&**ident,
             "none" => Ok(Display::None),
             "contents" => Ok(Display::Contents),
             "block" => Ok(Display::GeneratingBox(
@@ -103,7 +103,7 @@ impl super::Parse for Display {
                 let token = cssparser::Token::Ident(ident.clone());
                 Err(parser.new_unexpected_token_error(token))
             }
-        }
+        )
     }
 }
 
-- 
2.43.0


From 8161664878922bd51efccc8251db003b1b1266ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 12/39] fix: stay in the subtree and terminate when an element
 without following sibling is not displayed

---
 victor/src/layout/dom_traversal.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/victor/src/layout/dom_traversal.rs b/victor/src/layout/dom_traversal.rs
index 848e89b..73a5fb1 100644
--- a/victor/src/layout/dom_traversal.rs
+++ b/victor/src/layout/dom_traversal.rs
@@ -327,18 +327,18 @@ impl Context<'_> {
             }
             let mut next_is_a_sibling_of = node_id;
             node_id = loop {
+                if next_is_a_sibling_of == base_element {
+                    // Don’t go outside the subtree
+                    return;
+                }
                 if let Some(sibling) = self.document[next_is_a_sibling_of].next_sibling {
                     break sibling;
                 } else {
-                    next_is_a_sibling_of = node
+                    next_is_a_sibling_of = self.document[next_is_a_sibling_of]
                         .parent
                         .expect("reached the root while traversing only a subtree");
                 }
             };
-            if next_is_a_sibling_of == base_element {
-                // Don’t go outside the subtree
-                return;
-            }
         }
     }
 }
-- 
2.43.0


From bb61a7dfc7cfa2052aad346a2eacd18f9ab15305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 13/39] fix: no panic for a block-level element inside of an
 inline element

---
 victor/src/layout/flow/construct.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4acfc93..77446cd 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -470,9 +470,13 @@ impl<'a> BlockContainerBuilder<'a> {
     }
 
     fn end_ongoing_inline_formatting_context(&mut self) {
-        assert!(
-            self.ongoing_inline_boxes_stack.is_empty(),
-            "there should be no ongoing inline level boxes",
+        // Ongoing inline boxes are either all finished,
+        // or being split around a block-level box after their contents were taken.
+        debug_assert!(
+            self.ongoing_inline_boxes_stack
+                .iter()
+                .all(|b| b.children.is_empty()),
+            "there should be no contents in ongoing inline level boxes",
         );
 
         if self
-- 
2.43.0


From a8115726478cacfc56cf2a53dd5cba14514c9576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 14/39] fix: text in display:contents elements keeps the style
 of its parent element

---
 victor/src/layout/flow/construct.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 77446cd..0262c34 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -200,8 +200,18 @@ impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> {
             // context with the parent style of that builder.
             let inlines = self.current_inline_level_boxes();
 
-            fn last_text(inlines: &mut [Arc<InlineLevelBox>]) -> Option<&mut String> {
+            fn last_text<'a>(
+                inlines: &'a mut [Arc<InlineLevelBox>],
+                style: &Arc<ComputedValues>,
+            ) -> Option<&'a mut String> {
                 let last = inlines.last_mut()?;
+                match &**last {
+                    // The style is different in a `display: contents` element
+                    InlineLevelBox::TextRun(run) if !Arc::ptr_eq(&run.parent_style, style) => {
+                        return None
+                    }
+                    _ => {}
+                }
                 if let InlineLevelBox::TextRun(_) = &**last {
                     // We never clone text run boxes, so the refcount is 1 and unwrap succeeds:
                     let last = Arc::get_mut(last).unwrap();
@@ -217,7 +227,7 @@ impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> {
 
             let mut new_text_run_contents;
             let output;
-            if let Some(text) = last_text(inlines) {
+            if let Some(text) = last_text(inlines, parent_style) {
                 // Append to the existing text run
                 new_text_run_contents = None;
                 output = text;
-- 
2.43.0


From 161782de8a013033df023e0c5cd35e1b9bd2a105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 15/39] fix: do not lose white space at the start of an inline
 element after a word

---
 victor/src/layout/flow/construct.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 0262c34..2d96e4a 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -277,8 +277,15 @@ impl<'a> BlockContainerBuilder<'a> {
         if !text.starts_with(|c: char| c.is_ascii_whitespace()) {
             return (false, text);
         }
-        let mut inline_level_boxes = self.current_inline_level_boxes().iter().rev();
-        let mut stack = Vec::new();
+        // Look back in what was built so far: the contents of ongoing inline boxes
+        // (the innermost being last), preceded by finished siblings of the outermost.
+        let ongoing = &self.ongoing_inline_boxes_stack;
+        let top_level = &self.ongoing_inline_formatting_context.inline_level_boxes;
+        let mut stack = std::iter::once(top_level)
+            .chain(ongoing.iter().map(|b| &b.children))
+            .map(|boxes| boxes.iter().rev())
+            .collect::<Vec<_>>();
+        let mut inline_level_boxes = stack.pop().unwrap();
         let preserved = loop {
             match inline_level_boxes.next().map(|b| &**b) {
                 Some(InlineLevelBox::TextRun(r)) => break !r.text.ends_with(' '),
-- 
2.43.0


From 8f3b1697e42b59b2528486d24634bb548c0a9f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 16/39] fix: stylesheets apply in tree order, if they are in
 the tree, in XML as well as HTML

---
 victor/src/dom/html.rs |  9 ++-------
 victor/src/dom/mod.rs  | 12 +++++++-----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index cc290e1..525add4 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -106,17 +106,12 @@ impl TreeSink for Sink {
             ..
         }: ElementFlags,
     ) -> NodeId {
-        let is_style = name.expanded() == expanded_name!(html "style");
-        let element = self.new_node(NodeData::Element(ElementData {
+        self.new_node(NodeData::Element(ElementData {
             name,
             attrs: attrs.into_iter().map(Attribute::from).collect(),
             mathml_annotation_xml_integration_point,
             layout_data: Default::default(),
-        }));
-        if is_style {
-            self.document.style_elements.push(element)
-        }
-        element
+        }))
     }
 
     fn create_comment(&mut self, text: StrTendril) -> NodeId {
diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index 8603d44..6aa2490 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -13,7 +13,6 @@ pub use self::xml::XmlError;
 
 pub struct Document {
     nodes: Vec<Node>,
-    style_elements: Vec<NodeId>,
 }
 
 pub struct Node {
@@ -36,7 +35,6 @@ impl Document {
         let document_node = Node::new(NodeData::Document);
         Document {
             nodes: vec![dummy, document_node],
-            style_elements: Vec::new(),
         }
     }
 
@@ -46,10 +44,14 @@ impl Document {
 
     pub(crate) fn parse_stylesheets(&self) -> StyleSet {
         let mut style_set = StyleSetBuilder::new();
-        for &id in &self.style_elements {
-            let element = &self[id];
+        // In tree order, and only those in the document’s tree
+        for id in self.nodes() {
+            let element = match self[id].as_element() {
+                Some(e) if e.name.expanded() == expanded_name!(html "style") => e,
+                _ => continue,
+            };
             // https://html.spec.whatwg.org/multipage/semantics.html#update-a-style-block
-            if let Some(type_attr) = element.as_element().unwrap().get_attr(&local_name!("type")) {
+            if let Some(type_attr) = element.get_attr(&local_name!("type")) {
                 if !type_attr.eq_ignore_ascii_case("text/css") {
                     continue;
                 }
-- 
2.43.0


From 1e78337ceb52d49530669ee1413694fb3d79531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 17/39] fix: percentage offsets of relative positioning refer
 to the containing block

---
 victor/src/layout/flow/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index a810dfb..16b3f7d 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -406,7 +406,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             && flow_children
                 .collapsible_margins_in_children
                 .collapsed_through;
-    let relative_adjustement = relative_adjustement(style, inline_size, block_size);
+    let relative_adjustement = relative_adjustement(style, cbis, containing_block.block_size);
     let block_size = block_size.auto_is(|| flow_children.block_size);
     let content_rect = Rect {
         start_corner: Vec2 {
-- 
2.43.0


From 1ae3b4f6497b7c262573dfe79d0158f9a094b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 18/39] fix: absolute positioning used the containing block's
 size in the wrong axis

---
 victor/src/layout/positioned.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index 9794d1a..fa65ed2 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -217,7 +217,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         );
 
         let (block_anchor, block_size, margin_block_start, margin_block_end) = solve_axis(
-            cbis,
+            cbbs,
             pb.block_sum(),
             computed_margin.block_start,
             computed_margin.block_end,
@@ -263,7 +263,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
 
         let inline_start = match inline_anchor {
             Anchor::Start(start) => start + pb.inline_start + margin.inline_start,
-            Anchor::End(end) => cbbs - end - pb.inline_end - margin.inline_end - inline_size,
+            Anchor::End(end) => cbis - end - pb.inline_end - margin.inline_end - inline_size,
         };
 
         let block_size = block_size.auto_is(|| flow_children.block_size);
-- 
2.43.0


From 4757d2e5706c11de21222d121653620678b22ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 19/39] fix: auto margins take the other margin into account
 and are not negative

---
 victor/src/layout/flow/mod.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index 16b3f7d..de04e81 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -323,19 +323,18 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             &mut computed_margin.inline_end,
         ) {
             (s @ &mut Auto, e @ &mut Auto) => {
-                *s = Length(inline_margins / 2.);
-                *e = Length(inline_margins / 2.);
+                // Auto margins are not negative, then we may be over-constrained.
+                let start = (inline_margins / 2.).max(self::Length::zero());
+                *s = Length(start);
+                *e = Length(inline_margins - start);
             }
-            (s @ &mut Auto, _) => {
-                *s = Length(inline_margins);
+            (s @ &mut Auto, &mut Length(e)) => {
+                *s = Length((inline_margins - e).max(self::Length::zero()));
             }
-            (_, e @ &mut Auto) => {
-                *e = Length(inline_margins);
-            }
-            (_, e @ _) => {
+            (&mut Length(s), e) => {
                 // Either the inline-end margin is auto,
                 // or we’re over-constrained and we do as if it were.
-                *e = Length(inline_margins);
+                *e = Length(inline_margins - s);
             }
         }
     }
-- 
2.43.0


From 441022d70bccce89dd7f25b2390188933045ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 20/39] fix: static positions of absolutely positioned boxes
 were off by the padding of the containing block

---
 victor/src/layout/flow/mod.rs   |  2 +-
 victor/src/layout/positioned.rs | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index de04e81..af1e087 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -419,7 +419,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     };
     if style.box_.position.is_relatively_positioned() {
         AbsolutelyPositionedFragment::in_positioned_containing_block(
-            &nested_abspos,
+            &mut nested_abspos,
             &mut flow_children.fragments,
             &content_rect.size,
             &padding,
diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index fa65ed2..d3a33fa 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -83,7 +83,7 @@ impl AbsolutelyPositionedBox {
 
 impl<'a> AbsolutelyPositionedFragment<'a> {
     pub(super) fn in_positioned_containing_block(
-        absolute: &[Self],
+        absolute: &mut [Self],
         fragments: &mut Vec<Fragment>,
         content_rect_size: &Vec2<Length>,
         padding: &Sides<Length>,
@@ -92,6 +92,16 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         if absolute.is_empty() {
             return;
         }
+        // Static positions found so far are relative to the content rect,
+        // but the containing block of absolutely positioned boxes is the padding rect.
+        for abspos_fragment in &mut *absolute {
+            if let AbsoluteBoxOffsets::StaticStart { start } = &mut abspos_fragment.inline_start {
+                *start += padding.inline_start;
+            }
+            if let AbsoluteBoxOffsets::StaticStart { start } = &mut abspos_fragment.block_start {
+                *start += padding.block_start;
+            }
+        }
         let padding_rect = Rect {
             size: content_rect_size.clone(),
             // Ignore the content rect’s position in its own containing block:
@@ -284,7 +294,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         };
 
         AbsolutelyPositionedFragment::in_positioned_containing_block(
-            &absolutely_positioned_fragments,
+            &mut absolutely_positioned_fragments,
             &mut flow_children.fragments,
             &content_rect.size,
             &padding,
-- 
2.43.0


From e7cbdda7e7ae90eb47170f9da15592f442a03b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 21/39] fix: after a line break, the whole width of a line is
 available to the rest of the text

---
 victor/src/layout/flow/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 5c39bb9..1993336 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -269,9 +269,9 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
 
 impl TextRun {
     fn layout(&self, ifc: &mut InlineFormattingContextState) {
-        let available = ifc.containing_block.inline_size - ifc.inline_position;
         let mut chars = self.text.chars();
         loop {
+            let available = ifc.containing_block.inline_size - ifc.inline_position;
             let mut shaped = ShapedSegment::new_with_naive_shaping(BITSTREAM_VERA_SANS.clone());
             let mut last_break_opportunity = None;
             loop {
-- 
2.43.0


From 68b9b0ef9e05976d3335bb5c3e199d2124f456bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 22/39] fix: width, relative offset and line height of inline
 boxes that are nested or broken across lines

---
 victor/src/layout/flow/inline.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 1993336..292e1bc 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -45,6 +45,7 @@ struct InlineNestingLevelState<'box_tree> {
 struct PartialInlineBoxFragment<'box_tree> {
     style: Arc<ComputedValues>,
     start_corner: Vec2<Length>,
+    relative_adjustement: Vec2<Length>,
     padding: Sides<Length>,
     border: Sides<Length>,
     margin: Sides<Length>,
@@ -192,11 +193,11 @@ impl InlineBox {
             border.inline_start = Length::zero();
             margin.inline_start = Length::zero();
         }
-        let mut start_corner = Vec2 {
+        let start_corner = Vec2 {
             block: padding.block_start + border.block_start + margin.block_start,
             inline: ifc.inline_position - ifc.current_nesting_level.inline_start,
         };
-        start_corner += &relative_adjustement(
+        let relative_adjustement = relative_adjustement(
             &style,
             ifc.containing_block.inline_size,
             ifc.containing_block.block_size,
@@ -204,6 +205,7 @@ impl InlineBox {
         PartialInlineBoxFragment {
             style,
             start_corner,
+            relative_adjustement,
             padding,
             border,
             margin,
@@ -228,15 +230,20 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
         inline_position: &mut Length,
         at_line_break: bool,
     ) {
+        let mut start_corner = self.start_corner.clone();
+        start_corner += &self.relative_adjustement;
         let mut fragment = BoxFragment {
             style: self.style.clone(),
             children: take(&mut nesting_level.fragments_so_far),
             content_rect: Rect {
                 size: Vec2 {
-                    inline: *inline_position - self.start_corner.inline,
-                    block: nesting_level.max_block_size_of_fragments_so_far,
+                    inline: *inline_position - nesting_level.inline_start,
+                    block: std::mem::replace(
+                        &mut nesting_level.max_block_size_of_fragments_so_far,
+                        Length::zero(),
+                    ),
                 },
-                start_corner: self.start_corner.clone(),
+                start_corner,
             },
             padding: self.padding.clone(),
             border: self.border.clone(),
@@ -325,15 +332,14 @@ impl TextRun {
                 break;
             } else {
                 // New line
-                ifc.current_nesting_level.inline_start = Length::zero();
                 let mut nesting_level = &mut ifc.current_nesting_level;
                 for partial in ifc.partial_inline_boxes_stack.iter_mut().rev() {
                     partial.finish_layout(nesting_level, &mut ifc.inline_position, true);
+                    nesting_level.inline_start = Length::zero();
                     partial.start_corner.inline = Length::zero();
                     partial.padding.inline_start = Length::zero();
                     partial.border.inline_start = Length::zero();
                     partial.margin.inline_start = Length::zero();
-                    partial.parent_nesting_level.inline_start = Length::zero();
                     nesting_level = &mut partial.parent_nesting_level;
                 }
                 ifc.line_boxes
-- 
2.43.0


From fe17b4a3d60e9940c88c77db70bda7365691e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 23/39] fix: report errors when writing the end of a PDF file

---
 victor/src/pdf/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/victor/src/pdf/mod.rs b/victor/src/pdf/mod.rs
index f5636a7..af6d22a 100644
--- a/victor/src/pdf/mod.rs
+++ b/victor/src/pdf/mod.rs
@@ -33,7 +33,10 @@ impl Document {
 
     /// Encode this document to PDF and write it into the file with the given name.
     pub fn write_to_pdf_file<P: AsRef<path::Path>>(&self, filename: P) -> Result<(), io::Error> {
-        self.write_to_pdf(&mut io::BufWriter::new(fs::File::create(filename)?))
+        let mut stream = io::BufWriter::new(fs::File::create(filename)?);
+        self.write_to_pdf(&mut stream)?;
+        // Dropping `BufWriter` would ignore errors
+        stream.flush()
     }
 
     /// Encode this document to PDF and return a vector of bytes
-- 
2.43.0


From 61e77a7329a061a7625dd6bca9ab2de2f114317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 24/39] fix: report errors when writing the end of a PNG file

---
 lester/src/cairo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lester/src/cairo.rs b/lester/src/cairo.rs
index 07955dd..a905be5 100644
--- a/lester/src/cairo.rs
+++ b/lester/src/cairo.rs
@@ -133,7 +133,10 @@ impl ImageSurface {
 
     /// Encode this image to PNG and write it into the file with the given name.
     pub fn write_to_png_file<P: AsRef<path::Path>>(&self, filename: P) -> Result<(), LesterError> {
-        self.write_to_png(io::BufWriter::new(fs::File::create(filename)?))
+        let mut stream = io::BufWriter::new(fs::File::create(filename)?);
+        self.write_to_png(&mut stream)?;
+        // Dropping `BufWriter` would ignore errors
+        Ok(stream.flush()?)
     }
 }
 
-- 
2.43.0


From d8ca3d7764d9f6fc13b745a80083dd63057d4ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 25/39] fix: margins collapse through empty blocks with a zero
 height

---
 victor/src/layout/flow/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index af1e087..65c1755 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -401,7 +401,8 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     }
     block_margins_collapsed_with_children.collapsed_through =
         this_start_margin_can_collapse_with_children.0
-            && this_end_margin_can_collapse_with_children
+            && pb.block_end == Length::zero()
+            && block_size.auto_is(Length::zero) == Length::zero()
             && flow_children
                 .collapsible_margins_in_children
                 .collapsed_through;
-- 
2.43.0


From e893f942319fffb926fee1b25b68362c4f529717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 26/39] fix: the width of a block is not negative when margins
 and padding use more than the available width

---
 victor/src/layout/flow/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index 65c1755..59b62fe 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -340,7 +340,10 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     }
     let margin = computed_margin.auto_is(Length::zero);
     let mut block_margins_collapsed_with_children = CollapsedBlockMargins::from_margin(&margin);
-    let inline_size = inline_size.auto_is(|| cbis - pb.inline_sum() - margin.inline_sum());
+    let inline_size = inline_size.auto_is(|| {
+        let available_size = cbis - pb.inline_sum() - margin.inline_sum();
+        available_size.max(Length::zero())
+    });
     let block_size = match box_size.block {
         LengthOrPercentageOrAuto::Length(l) => LengthOrAuto::Length(l),
         LengthOrPercentageOrAuto::Percentage(p) => containing_block.block_size.map(|cbbs| cbbs * p),
-- 
2.43.0


From 1cd8a823ea942cce6e944e5a574ad634b4082ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 27/39] fix: percentage offsets relative to an auto height are
 auto

---
 victor/src/layout/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/mod.rs b/victor/src/layout/mod.rs
index ad4f4a7..9ef568f 100644
--- a/victor/src/layout/mod.rs
+++ b/victor/src/layout/mod.rs
@@ -118,10 +118,14 @@ fn relative_adjustement(
             (LengthOrAuto::Length(start), _) => start,
         }
     }
-    let block_size = block_size.auto_is(Length::zero);
     let box_offsets = style.box_offsets().map_inline_and_block_axes(
         |v| v.percentage_relative_to(inline_size),
-        |v| v.percentage_relative_to(block_size),
+        |v| match *v {
+            LengthOrPercentageOrAuto::Length(l) => LengthOrAuto::Length(l),
+            // Computes to auto if the height of the containing block is not known
+            LengthOrPercentageOrAuto::Percentage(p) => block_size.map(|size| size * p),
+            LengthOrPercentageOrAuto::Auto => LengthOrAuto::Auto,
+        },
     );
     Vec2 {
         inline: adjust(box_offsets.inline_start, box_offsets.inline_end),
-- 
2.43.0


From e9e41727aeeefb912137d971fbdd29f2c7d41a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 28/39] fix: margins collapse through empty inline boxes, such
 as those around a block-level element

---
 victor/src/layout/flow/inline.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 292e1bc..f314ce8 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -55,6 +55,10 @@ struct PartialInlineBoxFragment<'box_tree> {
 
 struct InlineFormattingContextState<'box_tree, 'cb> {
     containing_block: &'cb ContainingBlock,
+    /// Whether there is any text, or an inline box with non-zero margin, border, or padding.
+    /// Otherwise the only line box is treated as not existing:
+    /// https://drafts.csswg.org/css2/visuren.html#inline-formatting
+    any_content: bool,
     line_boxes: LinesBoxes,
     inline_position: Length,
     partial_inline_boxes_stack: Vec<PartialInlineBoxFragment<'box_tree>>,
@@ -75,6 +79,7 @@ impl InlineFormattingContext {
     ) -> FlowChildren {
         let mut ifc = InlineFormattingContextState {
             containing_block,
+            any_content: false,
             partial_inline_boxes_stack: Vec::new(),
             line_boxes: LinesBoxes {
                 boxes: Vec::new(),
@@ -140,7 +145,10 @@ impl InlineFormattingContext {
                 return FlowChildren {
                     fragments: ifc.line_boxes.boxes,
                     block_size: ifc.line_boxes.next_line_block_position,
-                    collapsible_margins_in_children: CollapsedBlockMargins::zero(),
+                    collapsible_margins_in_children: CollapsedBlockMargins {
+                        collapsed_through: !ifc.any_content,
+                        ..CollapsedBlockMargins::zero()
+                    },
                 };
             }
         }
@@ -186,6 +194,12 @@ impl InlineBox {
             .margin()
             .percentages_relative_to(cbis)
             .auto_is(Length::zero);
+        ifc.any_content |= [&padding, &border, &margin].iter().any(|sides| {
+            sides.block_start != Length::zero()
+                || sides.block_end != Length::zero()
+                || sides.inline_start != Length::zero()
+                || sides.inline_end != Length::zero()
+        });
         if self.first_fragment {
             ifc.inline_position += padding.inline_start + border.inline_start + margin.inline_start;
         } else {
@@ -276,6 +290,7 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
 
 impl TextRun {
     fn layout(&self, ifc: &mut InlineFormattingContextState) {
+        ifc.any_content = true;
         let mut chars = self.text.chars();
         loop {
             let available = ifc.containing_block.inline_size - ifc.inline_position;
-- 
2.43.0


From 14fa45dbcc92a7f2a6c06464d5b2325b75ffef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 29/39] fix: no negative automatic size for absolutely
 positioned boxes

---
 victor/src/layout/positioned.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index d3a33fa..e8aa279 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -192,13 +192,13 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
                         }
                         size
                     } else {
-                        // FIXME(nox): What happens if that is negative?
-                        containing_size
+                        let available_size = containing_size
                             - start
                             - end
                             - padding_border_sum
                             - margin_start
-                            - margin_end
+                            - margin_end;
+                        available_size.max(Length::zero())
                     };
                     (
                         Anchor::Start(start),
@@ -250,7 +250,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
             };
 
             // FIXME(nox): shrink-to-fit.
-            available_size
+            available_size.max(Length::zero())
         });
 
         let containing_block_for_children = ContainingBlock {
-- 
2.43.0


From 328559169420baa891bc319be6870366ad4da643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 30/39] fix: percentages in inline content do not refer to
 anonymous block boxes

---
 victor/src/layout/flow/construct.rs | 16 +++++++++++++---
 victor/src/layout/flow/mod.rs       | 19 +++++++++++++++++--
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 2d96e4a..1d45bcf 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -16,6 +16,7 @@ impl BlockFormattingContext {
 
 enum IntermediateBlockLevelBox {
     SameFormattingContextBlock {
+        anonymous: bool,
         style: Arc<ComputedValues>,
         contents: IntermediateBlockContainer,
     },
@@ -403,6 +404,7 @@ impl<'a> BlockContainerBuilder<'a> {
         let intermediate_box = match contents.try_into() {
             Ok(contents) => match display_inside {
                 DisplayInside::Flow => IntermediateBlockLevelBox::SameFormattingContextBlock {
+                    anonymous: false,
                     style,
                     contents: IntermediateBlockContainer::Deferred { contents },
                 },
@@ -514,6 +516,7 @@ impl<'a> BlockContainerBuilder<'a> {
         });
 
         let box_ = IntermediateBlockLevelBox::SameFormattingContextBlock {
+            anonymous: true,
             style: anonymous_style.clone(),
             contents: IntermediateBlockContainer::InlineFormattingContext(take(
                 &mut self.ongoing_inline_formatting_context,
@@ -541,10 +544,17 @@ impl<'a> BlockContainerBuilder<'a> {
 impl IntermediateBlockLevelBox {
     fn finish(self, context: &Context) -> (Arc<BlockLevelBox>, ContainsFloats) {
         match self {
-            IntermediateBlockLevelBox::SameFormattingContextBlock { style, contents } => {
+            IntermediateBlockLevelBox::SameFormattingContextBlock {
+                anonymous,
+                style,
+                contents,
+            } => {
                 let (contents, contains_floats) = contents.finish(context, &style);
-                let block_level_box =
-                    Arc::new(BlockLevelBox::SameFormattingContextBlock { contents, style });
+                let block_level_box = Arc::new(BlockLevelBox::SameFormattingContextBlock {
+                    anonymous,
+                    contents,
+                    style,
+                });
                 (block_level_box, contains_floats)
             }
             IntermediateBlockLevelBox::Independent {
diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index 59b62fe..b36c457 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -28,6 +28,7 @@ pub(super) enum BlockContainer {
 #[derive(Debug)]
 pub(super) enum BlockLevelBox {
     SameFormattingContextBlock {
+        anonymous: bool,
         style: Arc<ComputedValues>,
         contents: BlockContainer,
     },
@@ -245,15 +246,29 @@ impl BlockLevelBox {
         float_context: Option<&mut FloatContext>,
     ) -> Fragment {
         match self {
-            BlockLevelBox::SameFormattingContextBlock { style, contents } => {
+            BlockLevelBox::SameFormattingContextBlock {
+                anonymous,
+                style,
+                contents,
+            } => {
+                let parent_block_size = containing_block.block_size;
                 Fragment::Box(layout_in_flow_non_replaced_block_level(
                     containing_block,
                     absolutely_positioned_fragments,
                     style,
                     BlockLevelKind::SameFormattingContextBlock,
                     |containing_block, nested_abspos, collapsible_with_parent_start_margin| {
+                        let mut containing_block = ContainingBlock {
+                            ..*containing_block
+                        };
+                        if *anonymous {
+                            // “Anonymous block boxes are ignored when resolving
+                            // percentage values that would refer to it”
+                            // https://drafts.csswg.org/css2/visuren.html#anonymous-block-level
+                            containing_block.block_size = parent_block_size
+                        }
                         contents.layout(
-                            containing_block,
+                            &containing_block,
                             tree_rank,
                             nested_abspos,
                             float_context,
-- 
2.43.0


From 28d43154f131b8058cba4a292fe677e10618a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 31/39] fix: automatic heights are not negative

---
 victor/src/layout/flow/mod.rs   | 2 +-
 victor/src/layout/positioned.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index b36c457..514b93f 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -425,7 +425,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
                 .collapsible_margins_in_children
                 .collapsed_through;
     let relative_adjustement = relative_adjustement(style, cbis, containing_block.block_size);
-    let block_size = block_size.auto_is(|| flow_children.block_size);
+    let block_size = block_size.auto_is(|| flow_children.block_size.max(Length::zero()));
     let content_rect = Rect {
         start_corner: Vec2 {
             block: pb.block_start + relative_adjustement.block,
diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index e8aa279..17c0e6a 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -276,7 +276,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
             Anchor::End(end) => cbis - end - pb.inline_end - margin.inline_end - inline_size,
         };
 
-        let block_size = block_size.auto_is(|| flow_children.block_size);
+        let block_size = block_size.auto_is(|| flow_children.block_size.max(Length::zero()));
         let block_start = match block_anchor {
             Anchor::Start(start) => start + pb.block_start + margin.block_start,
             Anchor::End(end) => cbbs - end - pb.block_end - margin.block_end - block_size,
-- 
2.43.0


From 549091d17e0bef53784c983eb73b17cf9f724abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 32/39] fix: negative sizes, paddings, border widths and font
 sizes are invalid

---
 victor/src/style/errors.rs                 |  1 +
 victor/src/style/properties/definitions.rs | 14 +++---
 victor/src/style/properties/mod.rs         | 12 ++---
 victor/src/style/values/border.rs          |  4 +-
 victor/src/style/values/fonts.rs           | 12 +++--
 victor/src/style/values/length.rs          | 57 ++++++++++++++++++++++
 6 files changed, 81 insertions(+), 19 deletions(-)

diff --git a/victor/src/style/errors.rs b/victor/src/style/errors.rs
index a90857e..f512d33 100644
--- a/victor/src/style/errors.rs
+++ b/victor/src/style/errors.rs
@@ -6,6 +6,7 @@ pub(super) type PropertyParseError<'i> = ParseError<'i, PropertyParseErrorKind<'
 pub(super) enum PropertyParseErrorKind<'i> {
     UnknownProperty(CowRcStr<'i>),
     UnknownUnit(CowRcStr<'i>),
+    NegativeValue,
 }
 
 pub(super) enum RuleParseErrorKind<'i> {
diff --git a/victor/src/style/properties/definitions.rs b/victor/src/style/properties/definitions.rs
index 2568cfe..37b6671 100644
--- a/victor/src/style/properties/definitions.rs
+++ b/victor/src/style/properties/definitions.rs
@@ -21,8 +21,8 @@ properties! {
         left { "left", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
         bottom { "bottom", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
         right { "right", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
-        width { "width", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
-        height { "height", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
+        width { "width", NonNegative<LengthOrPercentageOrAuto>, initial = NonNegative(LengthOrPercentageOrAuto::Auto) }
+        height { "height", NonNegative<LengthOrPercentageOrAuto>, initial = NonNegative(LengthOrPercentageOrAuto::Auto) }
     }
 
     reset struct margin {
@@ -33,10 +33,10 @@ properties! {
     }
 
     reset struct padding {
-        padding_top { "padding-top", LengthOrPercentage, initial = Length::zero() }
-        padding_left { "padding-left", LengthOrPercentage, initial = Length::zero() }
-        padding_bottom { "padding-bottom", LengthOrPercentage, initial = Length::zero() }
-        padding_right { "padding-right", LengthOrPercentage, initial = Length::zero() }
+        padding_top { "padding-top", NonNegative<LengthOrPercentage>, initial = NonNegative(Length::zero().into()) }
+        padding_left { "padding-left", NonNegative<LengthOrPercentage>, initial = NonNegative(Length::zero().into()) }
+        padding_bottom { "padding-bottom", NonNegative<LengthOrPercentage>, initial = NonNegative(Length::zero().into()) }
+        padding_right { "padding-right", NonNegative<LengthOrPercentage>, initial = NonNegative(Length::zero().into()) }
     }
 
     reset struct border {
@@ -67,7 +67,7 @@ properties! {
             bottom: margin_bottom,
             right: margin_right,
         }
-        "padding" => FourSides<SpecifiedLengthOrPercentage> {
+        "padding" => FourSides<NonNegative<SpecifiedLengthOrPercentage>> {
             top: padding_top,
             left: padding_left,
             bottom: padding_bottom,
diff --git a/victor/src/style/properties/mod.rs b/victor/src/style/properties/mod.rs
index 3910d66..43f02a8 100644
--- a/victor/src/style/properties/mod.rs
+++ b/victor/src/style/properties/mod.rs
@@ -46,18 +46,18 @@ impl ComputedValues {
 
     pub(crate) fn box_size(&self) -> flow_relative::Vec2<values::LengthOrPercentageOrAuto> {
         physical::Vec2 {
-            x: self.box_.width,
-            y: self.box_.height,
+            x: self.box_.width.0,
+            y: self.box_.height.0,
         }
         .size_to_flow_relative(self.writing_mode())
     }
 
     pub(crate) fn padding(&self) -> flow_relative::Sides<values::LengthOrPercentage> {
         physical::Sides {
-            top: self.padding.padding_top,
-            left: self.padding.padding_left,
-            bottom: self.padding.padding_bottom,
-            right: self.padding.padding_right,
+            top: self.padding.padding_top.0,
+            left: self.padding.padding_left.0,
+            bottom: self.padding.padding_bottom.0,
+            right: self.padding.padding_right.0,
         }
         .to_flow_relative(self.writing_mode())
     }
diff --git a/victor/src/style/values/border.rs b/victor/src/style/values/border.rs
index 3f2ccee..fd6ef4e 100644
--- a/victor/src/style/values/border.rs
+++ b/victor/src/style/values/border.rs
@@ -14,7 +14,7 @@ enum ParsedLineWidth {
     Thin,
     Medium,
     Thick,
-    Other(SpecifiedLengthOrPercentage),
+    Other(NonNegative<SpecifiedLengthOrPercentage>),
 }
 
 #[derive(Clone)]
@@ -40,7 +40,7 @@ impl super::Parse for SpecifiedLineWidth {
             ParsedLineWidth::Thin => 1.0,
             ParsedLineWidth::Medium => 3.0,
             ParsedLineWidth::Thick => 5.0,
-            ParsedLineWidth::Other(value) => return Ok(SpecifiedLineWidth(value)),
+            ParsedLineWidth::Other(value) => return Ok(SpecifiedLineWidth(value.0)),
         };
         Ok(SpecifiedLineWidth(
             SpecifiedLength::Absolute(Length { px }).into(),
diff --git a/victor/src/style/values/fonts.rs b/victor/src/style/values/fonts.rs
index 3a00031..b9b6150 100644
--- a/victor/src/style/values/fonts.rs
+++ b/victor/src/style/values/fonts.rs
@@ -1,4 +1,5 @@
-use super::{EarlyCascadeContext, EarlyFromSpecified, Length, SpecifiedLength, SpecifiedValue};
+use super::{EarlyCascadeContext, EarlyFromSpecified, SpecifiedValue};
+use super::{Length, NonNegative, SpecifiedLength};
 
 #[derive(Copy, Clone)]
 pub(crate) struct FontSize(pub Length);
@@ -10,12 +11,15 @@ impl From<Length> for FontSize {
 }
 
 impl SpecifiedValue for FontSize {
-    type SpecifiedValue = SpecifiedLength;
+    type SpecifiedValue = NonNegative<SpecifiedLength>;
 }
 
 impl EarlyFromSpecified for FontSize {
-    fn early_from_specified(s: &SpecifiedLength, context: &EarlyCascadeContext) -> Self {
-        FontSize(match s {
+    fn early_from_specified(
+        s: &NonNegative<SpecifiedLength>,
+        context: &EarlyCascadeContext,
+    ) -> Self {
+        FontSize(match &s.0 {
             SpecifiedLength::Absolute(px) => *px,
             SpecifiedLength::Em(value) => context.inherited.font.font_size.0 * *value,
         })
diff --git a/victor/src/style/values/length.rs b/victor/src/style/values/length.rs
index 531e7b9..adaa92a 100644
--- a/victor/src/style/values/length.rs
+++ b/victor/src/style/values/length.rs
@@ -56,6 +56,63 @@ pub(crate) enum LengthOrAuto {
     Auto,
 }
 
+/// A value that is invalid if it is negative
+#[repr(transparent)]
+#[derive(Debug, Copy, Clone)]
+pub(crate) struct NonNegative<T>(pub T);
+
+pub(in crate::style) trait IsNegative {
+    fn is_negative(&self) -> bool;
+}
+
+impl IsNegative for SpecifiedLength {
+    fn is_negative(&self) -> bool {
+        match *self {
+            SpecifiedLength::Absolute(l) => l < Length::zero(),
+            SpecifiedLength::Em(value) => value < 0.,
+        }
+    }
+}
+
+impl IsNegative for SpecifiedLengthOrPercentage {
+    fn is_negative(&self) -> bool {
+        match self {
+            SpecifiedLengthOrPercentage::Length(l) => l.is_negative(),
+            SpecifiedLengthOrPercentage::Percentage(p) => p.unit_value < 0.,
+        }
+    }
+}
+
+impl IsNegative for SpecifiedLengthOrPercentageOrAuto {
+    fn is_negative(&self) -> bool {
+        match self {
+            SpecifiedLengthOrPercentageOrAuto::Length(l) => l.is_negative(),
+            SpecifiedLengthOrPercentageOrAuto::Percentage(p) => p.unit_value < 0.,
+            SpecifiedLengthOrPercentageOrAuto::Auto => false,
+        }
+    }
+}
+
+impl<T: Parse + IsNegative> Parse for NonNegative<T> {
+    fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> Result<Self, PropertyParseError<'i>> {
+        let value = T::parse(parser)?;
+        if value.is_negative() {
+            return Err(parser.new_custom_error(PropertyParseErrorKind::NegativeValue));
+        }
+        Ok(NonNegative(value))
+    }
+}
+
+impl<T: SpecifiedValue> SpecifiedValue for NonNegative<T> {
+    type SpecifiedValue = NonNegative<T::SpecifiedValue>;
+}
+
+impl<T: FromSpecified> FromSpecified for NonNegative<T> {
+    fn from_specified(s: &Self::SpecifiedValue, context: &CascadeContext) -> Self {
+        NonNegative(T::from_specified(&s.0, context))
+    }
+}
+
 impl Parse for SpecifiedLength {
     fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> Result<Self, PropertyParseError<'i>> {
         match parser.next()? {
-- 
2.43.0


From 3fde7186febadac566b31f79bd630a7183e8d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 33/39] fix: a style element with an empty type attribute is a
 CSS style sheet

---
 victor/src/dom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index 6aa2490..45ae9c9 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -52,7 +52,7 @@ impl Document {
             };
             // https://html.spec.whatwg.org/multipage/semantics.html#update-a-style-block
             if let Some(type_attr) = element.get_attr(&local_name!("type")) {
-                if !type_attr.eq_ignore_ascii_case("text/css") {
+                if !type_attr.is_empty() && !type_attr.eq_ignore_ascii_case("text/css") {
                     continue;
                 }
             }
-- 
2.43.0


From 61aa036e3d2122cc540a421f31d3c9891ef17623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 34/39] fix: the contents of template elements are not part of
 the tree

---
 victor/src/dom/html.rs | 20 +++++++++++++++-----
 victor/src/dom/mod.rs  |  2 +-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index 525add4..ad7df2d 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -3,13 +3,14 @@ use html5ever::interface::tree_builder::{ElementFlags, NodeOrText, QuirksMode, T
 use html5ever::tendril::{StrTendril, TendrilSink};
 use html5ever::{self, parse_document, ExpandedName};
 use std::borrow::Cow;
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 
 impl Document {
     pub fn parse_html(utf8_bytes: &[u8]) -> Self {
         let sink = Sink {
             document: Document::new(),
             quirks_mode: QuirksMode::NoQuirks,
+            template_contents: HashMap::new(),
         };
         parse_document(sink, Default::default())
             .from_utf8()
@@ -20,6 +21,9 @@ impl Document {
 struct Sink {
     document: Document,
     quirks_mode: QuirksMode,
+
+    /// The contents of `template` elements, which are not part of the document’s tree
+    template_contents: HashMap<NodeId, NodeId>,
 }
 
 impl Sink {
@@ -86,8 +90,8 @@ impl TreeSink for Sink {
             .expanded()
     }
 
-    fn get_template_contents(&mut self, &target: &NodeId) -> NodeId {
-        target
+    fn get_template_contents(&mut self, target: &NodeId) -> NodeId {
+        self.template_contents[target]
     }
 
     fn is_mathml_annotation_xml_integration_point(&self, &target: &NodeId) -> bool {
@@ -103,15 +107,21 @@ impl TreeSink for Sink {
         attrs: Vec<html5ever::Attribute>,
         ElementFlags {
             mathml_annotation_xml_integration_point,
+            template,
             ..
         }: ElementFlags,
     ) -> NodeId {
-        self.new_node(NodeData::Element(ElementData {
+        let id = self.new_node(NodeData::Element(ElementData {
             name,
             attrs: attrs.into_iter().map(Attribute::from).collect(),
             mathml_annotation_xml_integration_point,
             layout_data: Default::default(),
-        }))
+        }));
+        if template {
+            let contents = self.new_node(NodeData::Document);
+            self.template_contents.insert(id, contents);
+        }
+        id
     }
 
     fn create_comment(&mut self, text: StrTendril) -> NodeId {
diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index 45ae9c9..dbc7d4b 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -24,7 +24,7 @@ pub struct Node {
     pub(crate) data: NodeData,
 }
 
-#[derive(Copy, Clone, Debug, PartialEq, Eq)]
+#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
 pub(crate) struct NodeId(std::num::NonZeroUsize);
 
 impl Document {
-- 
2.43.0


From 9fea883a75e78677f215c88bf0d2aa5a9cbf7325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 35/39] fix: an XML document with two root elements is an
 error, not a panic later

---
 victor/src/dom/xml.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/victor/src/dom/xml.rs b/victor/src/dom/xml.rs
index 400ccc4..345cb14 100644
--- a/victor/src/dom/xml.rs
+++ b/victor/src/dom/xml.rs
@@ -6,11 +6,20 @@ impl Document {
         let mut document = Document::new();
         let mut current = Document::document_node_id();
         let mut ancestors = Vec::new();
-        for event in xml_rs::EventReader::new(utf8_bytes) {
-            match event.map_err(XmlError)? {
+        let mut has_root = false;
+        let mut reader = xml_rs::EventReader::new(utf8_bytes);
+        loop {
+            match reader.next().map_err(XmlError)? {
                 XmlEvent::StartElement {
                     name, attributes, ..
                 } => {
+                    if current == Document::document_node_id() {
+                        if has_root {
+                            let error = (&reader, "Unexpected element after the root element");
+                            return Err(XmlError(error.into()));
+                        }
+                        has_root = true
+                    }
                     let id = document.push_node(Node::new(NodeData::Element(ElementData {
                         name: convert_name(name),
                         attrs: attributes
@@ -51,10 +60,10 @@ impl Document {
                     }));
                     document.append(current, id);
                 }
-                XmlEvent::StartDocument { .. } | XmlEvent::EndDocument | XmlEvent::Comment(_) => {}
+                XmlEvent::StartDocument { .. } | XmlEvent::Comment(_) => {}
+                XmlEvent::EndDocument => return Ok(document),
             }
         }
-        Ok(document)
     }
 }
 
-- 
2.43.0


From 08a9d6234a6b0f8c11b4db148d47cafe6a98e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 36/39] fix: a document can be rendered by several threads at
 the same time

The second one panicked (or aborted) when borrowing the layout data of elements.
---
 victor/src/dom/mod.rs              | 27 +++++++++++++++++++++++++++
 victor/src/layout/dom_traversal.rs | 19 ++++++++++++++++++-
 victor/src/layout/flow/root.rs     |  2 ++
 3 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index dbc7d4b..d7f0a65 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -8,11 +8,27 @@ use html5ever::{LocalName, QualName};
 use std::borrow::Cow;
 use std::fmt;
 use std::iter::successors;
+use std::sync::atomic::{AtomicBool, Ordering};
 
 pub use self::xml::XmlError;
 
 pub struct Document {
     nodes: Vec<Node>,
+
+    /// Whether some layout is currently using the `layout_data` of elements
+    layout_data_in_use: AtomicBool,
+}
+
+pub(crate) struct LayoutDataUse<'a> {
+    document: &'a Document,
+}
+
+impl Drop for LayoutDataUse<'_> {
+    fn drop(&mut self) {
+        self.document
+            .layout_data_in_use
+            .store(false, Ordering::Release)
+    }
 }
 
 pub struct Node {
@@ -35,6 +51,17 @@ impl Document {
         let document_node = Node::new(NodeData::Document);
         Document {
             nodes: vec![dummy, document_node],
+            layout_data_in_use: AtomicBool::new(false),
+        }
+    }
+
+    /// Return `None` if another layout of the same document is in progress in another thread,
+    /// in which case the `layout_data` of elements must be left alone.
+    pub(crate) fn use_layout_data(&self) -> Option<LayoutDataUse> {
+        if self.layout_data_in_use.swap(true, Ordering::Acquire) {
+            None
+        } else {
+            Some(LayoutDataUse { document: self })
         }
     }
 
diff --git a/victor/src/layout/dom_traversal.rs b/victor/src/layout/dom_traversal.rs
index 73a5fb1..f95d130 100644
--- a/victor/src/layout/dom_traversal.rs
+++ b/victor/src/layout/dom_traversal.rs
@@ -6,6 +6,9 @@ use atomic_refcell::AtomicRefMut;
 pub(super) struct Context<'a> {
     pub document: &'a Document,
     pub author_styles: &'a StyleSet,
+
+    /// Whether to keep boxes in the `layout_data` of elements
+    pub store_boxes: bool,
 }
 
 #[derive(Copy, Clone)]
@@ -108,7 +111,9 @@ fn traverse_element<'dom>(
                 // <https://drafts.csswg.org/css-display-3/#valdef-display-contents>
                 context.unset_boxes_in_subtree(element_id)
             } else {
-                context.layout_data_mut(element_id).self_box = Some(LayoutBox::DisplayContents);
+                if context.store_boxes {
+                    context.layout_data_mut(element_id).self_box = Some(LayoutBox::DisplayContents);
+                }
                 traverse_children_of(element_id, &style, context, handler)
             }
         }
@@ -281,6 +286,9 @@ impl Context<'_> {
     }
 
     fn element_box_slot(&self, element_id: NodeId) -> BoxSlot {
+        if !self.store_boxes {
+            return BoxSlot::dummy();
+        }
         BoxSlot::new(AtomicRefMut::map(
             self.layout_data_mut(element_id),
             |data| &mut data.self_box,
@@ -288,6 +296,9 @@ impl Context<'_> {
     }
 
     fn pseudo_element_box_slot(&self, element_id: NodeId, which: WhichPseudoElement) -> BoxSlot {
+        if !self.store_boxes {
+            return BoxSlot::dummy();
+        }
         BoxSlot::new(AtomicRefMut::map(
             self.layout_data_mut(element_id),
             |data| {
@@ -301,6 +312,9 @@ impl Context<'_> {
     }
 
     fn unset_pseudo_element_box(&self, element_id: NodeId, which: WhichPseudoElement) {
+        if !self.store_boxes {
+            return;
+        }
         if let Some(pseudos) = &mut self.layout_data_mut(element_id).pseudo_elements {
             match which {
                 WhichPseudoElement::Before => pseudos.before = None,
@@ -310,6 +324,9 @@ impl Context<'_> {
     }
 
     fn unset_boxes_in_subtree(&self, base_element: NodeId) {
+        if !self.store_boxes {
+            return;
+        }
         let mut node_id = base_element;
         loop {
             let node = &self.document[node_id];
diff --git a/victor/src/layout/flow/root.rs b/victor/src/layout/flow/root.rs
index 443969c..853c605 100644
--- a/victor/src/layout/flow/root.rs
+++ b/victor/src/layout/flow/root.rs
@@ -14,9 +14,11 @@ struct BoxTreeRoot(BlockFormattingContext);
 impl BoxTreeRoot {
     pub fn construct(document: &dom::Document) -> Self {
         let author_styles = &document.parse_stylesheets();
+        let layout_data_use = document.use_layout_data();
         let context = Context {
             document,
             author_styles,
+            store_boxes: layout_data_use.is_some(),
         };
         let root_element = document.root_element();
         let style = style_for_element(context.author_styles, context.document, root_element, None);
-- 
2.43.0


From 92332dfa829ae5adfdd71d60371a0d35df9e4797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 37/39] fix: no panic or null slice for the pixels of an image
 surface of width or height zero

---
 lester/src/cairo.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lester/src/cairo.rs b/lester/src/cairo.rs
index a905be5..aff64e1 100644
--- a/lester/src/cairo.rs
+++ b/lester/src/cairo.rs
@@ -101,6 +101,15 @@ impl ImageSurface {
                 "Unsupported pixel format"
             );
 
+            if width == 0 || height == 0 {
+                // In this case cairo returns a null pointer, which is not valid in a slice
+                return Argb32Pixels {
+                    width: width.try_into().unwrap(),
+                    height: height.try_into().unwrap(),
+                    buffer: &mut [],
+                };
+            }
+
             // In theory we shouldn’t rely on this.
             // In practice cairo picks a stride that is `width * size_of_pixel`
             // rounded up to 32 bits.
-- 
2.43.0


From b99db1a60034bf6e34ac0daeac99bcfa56a3f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 38/39] fix: names in selectors are case-sensitive in XML
 documents

---
 victor/src/dom/html.rs        |  2 +-
 victor/src/dom/mod.rs         | 11 +++++------
 victor/src/dom/xml.rs         |  2 +-
 victor/src/style/selectors.rs |  2 +-
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index ad7df2d..a07114f 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -8,7 +8,7 @@ use std::collections::{HashMap, HashSet};
 impl Document {
     pub fn parse_html(utf8_bytes: &[u8]) -> Self {
         let sink = Sink {
-            document: Document::new(),
+            document: Document::new(true),
             quirks_mode: QuirksMode::NoQuirks,
             template_contents: HashMap::new(),
         };
diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index d7f0a65..cffb8a7 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -15,6 +15,9 @@ pub use self::xml::XmlError;
 pub struct Document {
     nodes: Vec<Node>,
 
+    /// As opposed to an XML document
+    pub(crate) is_html: bool,
+
     /// Whether some layout is currently using the `layout_data` of elements
     layout_data_in_use: AtomicBool,
 }
@@ -44,13 +47,14 @@ pub struct Node {
 pub(crate) struct NodeId(std::num::NonZeroUsize);
 
 impl Document {
-    fn new() -> Self {
+    fn new(is_html: bool) -> Self {
         // Dummy node at index 0 so that other indices fit in NonZero
         let dummy = Node::new(NodeData::Document);
 
         let document_node = Node::new(NodeData::Document);
         Document {
             nodes: vec![dummy, document_node],
+            is_html,
             layout_data_in_use: AtomicBool::new(false),
         }
     }
@@ -298,11 +302,6 @@ fn size_of() {
 }
 
 impl Node {
-    pub(crate) fn in_html_document(&self) -> bool {
-        // FIXME: track something when we add XML parsing
-        true
-    }
-
     pub(crate) fn as_element(&self) -> Option<&ElementData> {
         match self.data {
             NodeData::Element(ref data) => Some(data),
diff --git a/victor/src/dom/xml.rs b/victor/src/dom/xml.rs
index 345cb14..1bf85dc 100644
--- a/victor/src/dom/xml.rs
+++ b/victor/src/dom/xml.rs
@@ -3,7 +3,7 @@ use xml_rs::reader::XmlEvent;
 
 impl Document {
     pub fn parse_xml(utf8_bytes: &[u8]) -> Result<Self, XmlError> {
-        let mut document = Document::new();
+        let mut document = Document::new(false);
         let mut current = Document::document_node_id();
         let mut ancestors = Vec::new();
         let mut has_root = false;
diff --git a/victor/src/style/selectors.rs b/victor/src/style/selectors.rs
index 55a3417..527a1fc 100644
--- a/victor/src/style/selectors.rs
+++ b/victor/src/style/selectors.rs
@@ -147,7 +147,7 @@ impl<'a> selectors::Element for NodeRef<'a> {
     }
 
     fn is_html_element_in_html_document(&self) -> bool {
-        self.node().as_element().unwrap().name.ns == ns!(html) && self.node().in_html_document()
+        self.node().as_element().unwrap().name.ns == ns!(html) && self.document.is_html
     }
 
     fn local_name(&self) -> &LocalName {
-- 
2.43.0


From 0122abafc7b66736a0d322adbf8fce3ffd659f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:10 +0000
Subject: [PATCH 39/39] fix: percentages are not valid border widths

---
 victor/src/style/values/border.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/victor/src/style/values/border.rs b/victor/src/style/values/border.rs
index fd6ef4e..300a5be 100644
--- a/victor/src/style/values/border.rs
+++ b/victor/src/style/values/border.rs
@@ -14,7 +14,7 @@ enum ParsedLineWidth {
     Thin,
     Medium,
     Thick,
-    Other(NonNegative<SpecifiedLengthOrPercentage>),
+    Other(NonNegative<SpecifiedLength>),
 }
 
 #[derive(Clone)]
@@ -40,7 +40,7 @@ impl super::Parse for SpecifiedLineWidth {
             ParsedLineWidth::Thin => 1.0,
             ParsedLineWidth::Medium => 3.0,
             ParsedLineWidth::Thick => 5.0,
-            ParsedLineWidth::Other(value) => return Ok(SpecifiedLineWidth(value.0)),
+            ParsedLineWidth::Other(value) => return Ok(SpecifiedLineWidth(value.0.into())),
         };
         Ok(SpecifiedLineWidth(
             SpecifiedLength::Absolute(Length { px }).into(),
-- 
2.43.0

