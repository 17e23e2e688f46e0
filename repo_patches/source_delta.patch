From db465640d1e8b154ce2d5aa876795535f1a538cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 01/20] fix: separate empty names from following tokens in
 compact output

---
 src/object.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index a16146f..448cc9a 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -379,9 +379,13 @@ fn is_regular_character(byte: u8) -> bool {
     )
 }
 
+/// Whether a token can directly follow a token that ends with this byte.
+///
+/// While `/` is a delimiter character, a trailing one is an empty name, which
+/// would absorb the next token.
 #[inline]
 pub(crate) fn is_delimiter_character(byte: u8) -> bool {
-    matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'/' | b'%')
+    matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'%')
 }
 
 /// The null object.
-- 
2.43.0


From e47a065d123dad2011ef9041950acf80c2072894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 02/20] fix: do not overflow when registering i32::MIN in the
 limits

---
 src/buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buf.rs b/src/buf.rs
index f6f69f0..b389ba3 100644
--- a/src/buf.rs
+++ b/src/buf.rs
@@ -192,7 +192,7 @@ impl Limits {
     }
 
     pub(crate) fn register_int(&mut self, val: i32) {
-        self.int = self.int.max(val.abs());
+        self.int = self.int.max(val.saturating_abs());
     }
 
     pub(crate) fn register_real(&mut self, val: f32) {
-- 
2.43.0


From 9497daac563d0581d33761b38ead77174526934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 03/20] fix: register the encoded length of non-ASCII and
 language-tagged text strings

---
 src/object.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 448cc9a..c00b610 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -167,12 +167,12 @@ impl Sealed for TextStr<'_> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        buf.limits.register_str_len(self.0.len());
-
         // ASCII and PDFDocEncoding match for 32 up to 126.
         if self.0.bytes().all(|b| matches!(b, 32..=126)) {
             Str(self.0.as_bytes()).write(buf);
         } else {
+            // Byte order mark plus two bytes per UTF-16 code unit.
+            buf.limits.register_str_len(2 + 2 * self.0.encode_utf16().count());
             buf.reserve(6 + 4 * self.0.len());
             write_utf16be_text_str_header(buf);
             for value in self.0.encode_utf16() {
@@ -256,13 +256,15 @@ impl<'a, 'b> Sealed for TextStrWithLang<'a, 'b> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        let mut len = 0;
+        // The byte order mark.
+        let mut len = 2;
         let mut buf_len = 6;
 
         for (lang, text) in self.0 {
             // Each language tag is enclosed in two escape characters, plus the
             // two-letter language code and optional two-letter region code.
-            len += text.len() + lang.len() + 2;
+            // Everything is encoded in UTF-16.
+            len += 2 * (text.encode_utf16().count() + lang.len() + 2);
             // Each hexadecimal character is four bytes long, plus four bytes
             // for the escape sequence. The language tag is encoded in
             // hexadecimal, so each byte becomes two hexadecimal characters.
-- 
2.43.0


From 8316dbdf4d5aa61ae4d5247c2aa1ec21b4ceb9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 04/20] fix: register the string length of dates in the limits

---
 src/object.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/object.rs b/src/object.rs
index c00b610..bdf020e 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -610,6 +610,7 @@ impl Sealed for Date {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
+        let start = buf.len();
         buf.extend(b"(D:");
 
         (|| {
@@ -634,6 +635,10 @@ impl Sealed for Date {
         })();
 
         buf.push(b')');
+
+        // Neither the parentheses nor any escapes count.
+        let len = buf.len() - start - 2;
+        buf.limits.register_str_len(len);
     }
 }
 
-- 
2.43.0


From 286eec93bbcdfd4d6e4f3c29e81545e65244fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 05/20] fix: keep the settings of a renumbered chunk

---
 src/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index be76127..1a8c9d5 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -171,7 +171,7 @@ impl Chunk {
     where
         F: FnMut(Ref) -> Ref,
     {
-        let mut chunk = Chunk::with_capacity(self.len());
+        let mut chunk = Chunk::with_settings_and_capacity(self.settings, self.len());
         self.renumber_into(&mut chunk, mapping);
         chunk
     }
-- 
2.43.0


From 4237de622e302e69f19c278d2da66a6d89404da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 06/20] fix: make xref stream fields wide enough for free list
 links

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ffa495e..c86f772 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -379,7 +379,11 @@ impl Pdf {
         // Include the reference of the xref stream in the offsets as well!
         let xref_offset = buf.len();
         offsets.push((xref_id, xref_offset));
-        let field_width = determine_field_width(xref_offset);
+
+        // The field also holds links in the free list, which are bounded by the
+        // highest object number.
+        let max_id = offsets.iter().map(|(id, _)| id.get()).max().unwrap_or(0);
+        let field_width = determine_field_width(xref_offset.max(max_id as usize));
 
         let mut writer = XRefStreamWriter::new(field_width);
         let xref_len = write_offsets(offsets, &mut writer);
-- 
2.43.0


From 00846d555d85e25a040cabca5d5368a2a6309a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 07/20] fix: map the ruby punctuation role RP to itself in PDF
 2.0

---
 src/structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index 535eb44..85992fc 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -973,7 +973,7 @@ impl StructRole {
             Self::Warichu => Some(StructRole2::Warichu),
             Self::RB => Some(StructRole2::RB),
             Self::RT => Some(StructRole2::RT),
-            Self::RP => Some(StructRole2::WP),
+            Self::RP => Some(StructRole2::RP),
             Self::WT => Some(StructRole2::WT),
             Self::WP => Some(StructRole2::WP),
             Self::Figure => Some(StructRole2::Figure),
-- 
2.43.0


From eea31c0574c2048feac0d11c99b1f7521f939b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 08/20] fix: write the documented key for the signature
 appearance filter

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index 6726fc7..e3357a4 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -726,7 +726,7 @@ impl SignatureSeedValue<'_> {
     /// the appearance must be available and used to sign the document.
     /// PDF 2.0+.
     pub fn appearance_filter(&mut self, signature_appearance: TextStr<'_>) -> &mut Self {
-        self.pair(Name(b"LockDocument"), signature_appearance);
+        self.pair(Name(b"AppearanceFilter"), signature_appearance);
         self
     }
 }
-- 
2.43.0


From 8f230ce5495ed50fa86c17944ac2d52234be393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 09/20] fix: write the documented key for signature policy
 commitment types

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index e3357a4..64b876a 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -998,7 +998,7 @@ impl CertificateSeedValue<'_> {
         &mut self,
         commitment_types: impl IntoIterator<Item = Str<'b>>,
     ) -> &mut Self {
-        self.insert(Name(b"SignaturePolicyHashAlgorithm"))
+        self.insert(Name(b"SignaturePolicyCommitmentType"))
             .array()
             .items(commitment_types);
         self
-- 
2.43.0


From 698e04f44d39c5e75a0d1d932a0c8652d8f72ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 10/20] fix: write the documented key for opaque transitions

---
 src/transitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transitions.rs b/src/transitions.rs
index 83d3b65..885eb08 100644
--- a/src/transitions.rs
+++ b/src/transitions.rs
@@ -57,7 +57,7 @@ impl Transition<'_> {
 
     /// Write the `/B` attribute for the `Fly` transition. PDF 1.5+.
     pub fn opaque(&mut self, opaque: f32) -> &mut Self {
-        self.pair(Name(b"F"), opaque);
+        self.pair(Name(b"B"), opaque);
         self
     }
 }
-- 
2.43.0


From 917129b0fe29b09d5ab1bae7eafe821a9f193fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 11/20] fix: write the documented key for the page close action

---
 src/actions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actions.rs b/src/actions.rs
index 470e26e..769be02 100644
--- a/src/actions.rs
+++ b/src/actions.rs
@@ -339,7 +339,7 @@ impl AdditionalActions<'_> {
     /// shall be performed when the page containing the annotation is closed.
     /// Only permissible for annotations. PDF 1.5+.
     pub fn annot_page_close(&mut self) -> Action<'_> {
-        self.insert(Name(b"PV")).start()
+        self.insert(Name(b"PC")).start()
     }
 
     /// Start writing the `/PV` dictionary. This sets the action action that
-- 
2.43.0


From 6a446fc4241e5426aaa870b7798e1bfca675ab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 12/20] fix: keep names with line breaks inside the comments of
 a character map

---
 src/font.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/font.rs b/src/font.rs
index 4adc32f..afc33b2 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -879,14 +879,14 @@ where
 
         // Dynamic header.
         buf.extend(b"%%BeginResource: CMap ");
-        buf.extend(name.0);
+        push_comment(&mut buf, name.0);
         buf.push(b'\n');
         buf.extend(b"%%Title: (");
-        buf.extend(name.0);
+        push_comment(&mut buf, name.0);
         buf.push(b' ');
-        buf.extend(info.registry.0);
+        push_comment(&mut buf, info.registry.0);
         buf.push(b' ');
-        buf.extend(info.ordering.0);
+        push_comment(&mut buf, info.ordering.0);
         buf.push(b' ');
         buf.push_int(info.supplement);
         buf.extend(b")\n");
@@ -1032,6 +1032,14 @@ mod private {
     }
 }
 
+/// Write bytes into a comment, keeping them from ending the comment.
+fn push_comment(buf: &mut Buf, bytes: &[u8]) {
+    buf.extend(bytes.iter().map(|&byte| match byte {
+        b'\n' | b'\r' | b'\x0c' => b' ',
+        _ => byte,
+    }));
+}
+
 /// Specifics about a character collection.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
 pub struct SystemInfo<'a> {
-- 
2.43.0


From 2d26116e85366949a5075e0473976aaefc501452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 13/20] fix: write CMYK annotation colors in component order

---
 src/annotations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/annotations.rs b/src/annotations.rs
index cfc1d0a..d50f1b1 100644
--- a/src/annotations.rs
+++ b/src/annotations.rs
@@ -431,7 +431,7 @@ impl AppearanceCharacteristics<'_> {
     /// Write the `/BC` attribute using an RGB color. This sets the widget
     /// annotation's border color.
     pub fn border_color_cymk(&mut self, c: f32, y: f32, m: f32, k: f32) -> &mut Self {
-        self.insert(Name(b"BC")).array().items([c, y, m, k]);
+        self.insert(Name(b"BC")).array().items([c, m, y, k]);
         self
     }
 
@@ -459,7 +459,7 @@ impl AppearanceCharacteristics<'_> {
     /// Write the `/BG` attribute using an RGB color. This sets the widget
     /// annotation's backround color.
     pub fn background_color_cymk(&mut self, c: f32, y: f32, m: f32, k: f32) -> &mut Self {
-        self.insert(Name(b"BG")).array().items([c, y, m, k]);
+        self.insert(Name(b"BG")).array().items([c, m, y, k]);
         self
     }
 
-- 
2.43.0


From 2b1b81a09be9c70168e9c0b4a5dbd8de5e85e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 14/20] fix: use the standardised identifiers for structure
 namespaces

ISO 32000-2 identifies the standard structure namespaces by
http://iso.org/pdf/ssn and http://iso.org/pdf2/ssn, and MathML by
http://www.w3.org/1998/Math/MathML. Readers compare them literally.
---
 src/structure.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 85992fc..00d2394 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -764,7 +764,7 @@ deref!('a, ClassMap<'a> => Dict<'a>, dict);
 /// Role the structure element fulfills in the document for PDF 1.7 and below.
 ///
 /// These are the predefined standard roles in PDF 1.7 and below, matching the
-/// `https://www.iso.org/pdf/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf/ssn` namespace. The writer may write their own
 /// roles and then provide a mapping with [`StructTreeRoot::role_map`], or, if
 /// writing PDF 2.0, with [`Namespace::role_map_ns`]. PDF 1.4+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
@@ -1089,7 +1089,7 @@ impl TryFrom<StructRole> for StructRole2 {
 /// PDF 2.0 roles the structure element fulfills in the document.
 ///
 /// These are the predefined standard roles in PDF 2.0, matching the
-/// `https://www.iso.org/pdf2/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf2/ssn` namespace. The writer may write their own
 /// types and then provide a mapping using [`Namespace::role_map_ns`]. PDF 2.0+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
 pub enum StructRole2 {
@@ -1546,18 +1546,18 @@ impl Namespace<'_> {
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 2.0_.
     pub fn pdf_2_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf2/ssn"));
+        self.ns(TextStr("http://iso.org/pdf2/ssn"));
     }
 
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 1.7_.
     pub fn pdf_1_7_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf/ssn"));
+        self.ns(TextStr("http://iso.org/pdf/ssn"));
     }
 
     /// Write the namespace dictionary for MathML 3.0.
     pub fn mathml_3_0_ns(mut self) {
-        self.ns(TextStr("https://www.w3.org/1998/Math/MathML"));
+        self.ns(TextStr("http://www.w3.org/1998/Math/MathML"));
     }
 }
 
-- 
2.43.0


From fb037707f613cf27845d134e8272b7558a006fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 15/20] fix: write the limits of a name tree node as strings

The keys of a name tree are strings, and a node's /Limits array holds the
least and greatest of them; written as names, readers cannot compare them
with the keys of the tree.
---
 src/object.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index bdf020e..7d4bcda 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1478,7 +1478,11 @@ impl<T> NameTree<'_, T> {
     /// Write the `/Limits` array to set the range of names in this node. This
     /// is required for every node except the root node.
     pub fn limits(&mut self, min: Name, max: Name) -> &mut Self {
-        self.dict.insert(Name(b"Limits")).array().typed().items([min, max]);
+        self.dict
+            .insert(Name(b"Limits"))
+            .array()
+            .typed()
+            .items([Str(min.0), Str(max.0)]);
         self
     }
 }
-- 
2.43.0


From e5facb8777eee1c7c275f26c47c6001991897f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 16/20] fix: reject a second tint transform of a Separation
 color space

The array has exactly four elements; DeviceN already rejects it.
---
 src/color.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index b6e98f6..4fc29ee 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -447,18 +447,20 @@ impl PatternType {
 /// alternate color space. Then, one of the `tint_...` methods must be called
 /// to specify the tint transform method. If the tint transform method is
 /// called before the alternate color space, the function panics. If multiple
-/// alternate color space functions are called, the function panics.
+/// alternate color space or multiple tint transform functions are called, the
+/// function panics.
 ///
 /// This struct is created by [`ColorSpace::separation`].
 pub struct Separation<'a> {
     array: Array<'a>,
     has_alternate: bool,
+    has_tint: bool,
 }
 
 impl<'a> Separation<'a> {
     /// Start the wrapper.
     pub(crate) fn start(array: Array<'a>) -> Self {
-        Self { array, has_alternate: false }
+        Self { array, has_alternate: false, has_tint: false }
     }
 
     /// Write the `alternateSpace` element as a device color space.
@@ -499,7 +501,11 @@ impl<'a> Separation<'a> {
     pub fn tint_exponential(&mut self) -> ExponentialFunction<'_> {
         if !self.has_alternate {
             panic!("alternate space must be specified before tint transform");
+        } else if self.has_tint {
+            panic!("tint transform already specified");
         }
+
+        self.has_tint = true;
         ExponentialFunction::start(self.array.push())
     }
 
@@ -507,7 +513,11 @@ impl<'a> Separation<'a> {
     pub fn tint_stitching(&mut self) -> StitchingFunction<'_> {
         if !self.has_alternate {
             panic!("alternate space must be specified before tint transform");
+        } else if self.has_tint {
+            panic!("tint transform already specified");
         }
+
+        self.has_tint = true;
         StitchingFunction::start(self.array.push())
     }
 
@@ -519,8 +529,12 @@ impl<'a> Separation<'a> {
     pub fn tint_ref(&mut self, id: Ref) -> &mut Self {
         if !self.has_alternate {
             panic!("alternate space must be specified before tint transform");
+        } else if self.has_tint {
+            panic!("tint transform already specified");
         }
+
         self.array.item(id);
+        self.has_tint = true;
         self
     }
 }
-- 
2.43.0


From ae51a31a18ea87959bc4acefc7f4dc42cafe9683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 17/20] fix: reject a second attributes dictionary of a DeviceN
 color space

The array has at most five elements.
---
 src/color.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/color.rs b/src/color.rs
index 4fc29ee..d468c1f 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -552,12 +552,18 @@ pub struct DeviceN<'a> {
     array: Array<'a>,
     has_alternate: bool,
     has_tint: bool,
+    has_attrs: bool,
 }
 
 impl<'a> DeviceN<'a> {
     /// Start the wrapper.
     pub(crate) fn start(array: Array<'a>) -> Self {
-        Self { array, has_alternate: false, has_tint: false }
+        Self {
+            array,
+            has_alternate: false,
+            has_tint: false,
+            has_attrs: false,
+        }
     }
 
     /// Write the `alternateSpace` element as a device color space.
@@ -642,8 +648,11 @@ impl<'a> DeviceN<'a> {
             );
         } else if !self.has_tint {
             panic!("tint transform must be specified before attributes");
+        } else if self.has_attrs {
+            panic!("attributes already specified");
         }
 
+        self.has_attrs = true;
         DeviceNAttrs::start(self.array.push())
     }
 }
-- 
2.43.0


From a7f8d65a5d2db739602f6809d467766956e9387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 18/20] fix: keep the decimal point of large reals in
 PostScript functions

---
 src/buf.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/buf.rs b/src/buf.rs
index b389ba3..fe08236 100644
--- a/src/buf.rs
+++ b/src/buf.rs
@@ -54,13 +54,22 @@ impl Buf {
         if value as i32 as f32 == value {
             self.push_int(value as i32);
         } else {
-            self.push_decimal(value);
+            self.push_real(value);
         }
     }
 
     /// Like `push_float`, but forces the decimal point.
     #[inline]
     pub(crate) fn push_decimal(&mut self, value: f32) {
+        let start = self.inner.len();
+        self.push_real(value);
+        if !self.inner[start..].contains(&b'.') {
+            self.extend(b".0");
+        }
+    }
+
+    #[inline]
+    fn push_real(&mut self, value: f32) {
         self.limits.register_real(value);
 
         if value == 0.0 || (value.abs() > 1e-6 && value.abs() < 1e12) {
-- 
2.43.0


From 0a09902f6b98d715473485c6d558b88f993721e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 19/20] hook: raw objects for verification, guarded by
 cfg(pdf_writer_verif)

---
 src/chunk.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/chunk.rs b/src/chunk.rs
index 1a8c9d5..5cd1c42 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -187,6 +187,18 @@ impl Chunk {
     }
 }
 
+/// Verification hook, only compiled with `--cfg pdf_writer_verif`.
+#[allow(unexpected_cfgs)]
+impl Chunk {
+    /// Add the bytes of a complete indirect object with the given id as they
+    /// are, in any spelling and with any generation number.
+    #[cfg(pdf_writer_verif)]
+    pub fn raw_object(&mut self, id: Ref, bytes: &[u8]) {
+        self.offsets.push((id, self.buf.len()));
+        self.buf.extend(bytes);
+    }
+}
+
 /// Indirect objects and streams.
 impl Chunk {
     /// Start writing an indirectly referenceable object.
-- 
2.43.0


From a31ca22e93b0030d437cbaf699b016421c4cceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 20/20] fix: do not pad the first operand of a compact content
 stream

---
 src/content.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/content.rs b/src/content.rs
index 36224fc..44c222d 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -134,7 +134,8 @@ impl<'a> Operation<'a> {
 
             false
         } else {
-            true
+            // The first operand of the whole stream has nothing before it.
+            !self.buf.is_empty()
         };
 
         self.first = false;
-- 
2.43.0

