From 01ce280f8e8f1617aa39980cb8e25e5c0713a634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 01/14] fix: read the item variation store of a glyph
 definition from its own offset

---
 src/tables/glyph_definition/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/mod.rs b/src/tables/glyph_definition/mod.rs
index ae7c79d..1a9db68 100644
--- a/src/tables/glyph_definition/mod.rs
+++ b/src/tables/glyph_definition/mod.rs
@@ -74,7 +74,7 @@ table! {
             jump_take_maybe!(
                 tape,
                 position,
-                field!(this.header => mark_offset(0), Header::{Version13})
+                field!(this.header => variation_offset(0), Header::{Version13})
             )
         },
     }
-- 
2.43.0


From 12082a0036d98ab00568f479559dff2325f14f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 02/14] fix: read the format of a ligature caret as a 16-bit
 number

---
 src/tables/glyph_definition/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/element.rs b/src/tables/glyph_definition/element.rs
index 4eb5990..3e2f77b 100644
--- a/src/tables/glyph_definition/element.rs
+++ b/src/tables/glyph_definition/element.rs
@@ -132,7 +132,7 @@ table! {
 
 impl crate::value::Read for Caret {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
-        Ok(match tape.peek::<u32>()? {
+        Ok(match tape.peek::<u16>()? {
             1 => Self::Format1(tape.take()?),
             2 => Self::Format2(tape.take()?),
             3 => Self::Format3(tape.take()?),
-- 
2.43.0


From c510e92af1cc8df2a7203d451560d111b0d355ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 03/14] fix: do not read past the deltas of a device correction
 that fill their last word

---
 src/layout/correction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/correction.rs b/src/layout/correction.rs
index 944959e..b6d8e8c 100644
--- a/src/layout/correction.rs
+++ b/src/layout/correction.rs
@@ -61,7 +61,7 @@ impl crate::value::Read for Device {
         }
         let count = (end_size - start_size) as usize + 1;
         let bit_count = (1 << format as usize) * count;
-        let short_count = (bit_count + 16 - bit_count % 16) >> 4;
+        let short_count = (bit_count + 15) >> 4;
         let deltas = tape.take_given(short_count)?;
         Ok(Device {
             start_size,
-- 
2.43.0


From 4ddd42299e051280c57afcdc27d6840038931e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 04/14] fix: read the PostScript name of a variation instance
 only if it is present

---
 src/tables/font_variations/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index 8a2ae59..509d420 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -47,10 +47,10 @@ table! {
     @define
     /// An instance record of a font-variations table.
     pub InstanceRecord { // InstanceRecord
-        subfamily_name_id  (NameID       ), // subfamilyNameID
-        flags              (InstanceFlags), // flags
-        coordinates        (Vec<q32>     ), // coordinates
-        postscript_name_id (NameID       ), // postScriptNameID
+        subfamily_name_id  (NameID        ), // subfamilyNameID
+        flags              (InstanceFlags ), // flags
+        coordinates        (Vec<q32>      ), // coordinates
+        postscript_name_id (Option<NameID>), // postScriptNameID
     }
 }
 
@@ -84,7 +84,7 @@ impl crate::value::Read for FontVariations {
         let instance_records = (0..header.instance_count as u64)
             .map(|i| {
                 tape.jump(position + i * header.instance_size as u64)?;
-                tape.take_given(header.axis_count)
+                tape.take_given((header.axis_count, header.instance_size))
             })
             .collect::<Result<Vec<_>>>()?;
         Ok(Self {
@@ -96,14 +96,21 @@ impl crate::value::Read for FontVariations {
 }
 
 impl crate::walue::Read<'static> for InstanceRecord {
-    type Parameter = u16;
+    type Parameter = (u16, u16);
 
-    fn read<T: crate::tape::Read>(tape: &mut T, axis_count: Self::Parameter) -> Result<Self> {
+    fn read<T: crate::tape::Read>(
+        tape: &mut T,
+        (axis_count, instance_size): Self::Parameter,
+    ) -> Result<Self> {
         Ok(Self {
             subfamily_name_id: tape.take()?,
             flags: tape.take()?,
             coordinates: tape.take_given(axis_count as usize)?,
-            postscript_name_id: tape.take()?,
+            postscript_name_id: if instance_size as usize >= 4 * axis_count as usize + 6 {
+                Some(tape.take()?)
+            } else {
+                None
+            },
         })
     }
 }
-- 
2.43.0


From 306ec162d751318526dba7c14ecad6002d6bafe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 05/14] fix: reject unknown formats of the reversed chained
 contextual substitution

---
 src/tables/glyph_substitution/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_substitution/mod.rs b/src/tables/glyph_substitution/mod.rs
index 77c06ff..45f4acd 100644
--- a/src/tables/glyph_substitution/mod.rs
+++ b/src/tables/glyph_substitution/mod.rs
@@ -147,7 +147,7 @@ table! {
     @position
     /// A reversed chained contextual substitution.
     pub ReverseChainedContextualSubstibution { // ReverseChainSingleSubstFormat1
-        format               (u16), // substFormat
+        format               (u16) = { 1 }, // substFormat
         coverage_offset      (u16), // coverageOffset
         backward_glyph_count (u16), // backtrackGlyphCount
 
-- 
2.43.0


From 8354d508827a606c39b6f3840b00e5cf475e8d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 06/14] fix: take null offsets of context rule sets in format 1
 for absent sets

---
 src/layout/context.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout/context.rs b/src/layout/context.rs
index 9cd7279..5e29bc1 100644
--- a/src/layout/context.rs
+++ b/src/layout/context.rs
@@ -32,8 +32,8 @@ table! {
             jump_take!(tape, position, this.coverage_offset)
         },
 
-        records (Vec<Records>) |this, tape, position| {
-            jump_take!(tape, position, this.record_count, this.record_offsets)
+        records (Vec<Option<Records>>) |this, tape, position| {
+            jump_take_maybe!(tape, position, this.record_count, this.record_offsets)
         },
     }
 }
@@ -114,8 +114,8 @@ table! {
             jump_take!(tape, position, this.coverage_offset)
         },
 
-        records (Vec<ChainedRecords>) |this, tape, position| {
-            jump_take!(tape, position, this.record_count, this.record_offsets)
+        records (Vec<Option<ChainedRecords>>) |this, tape, position| {
+            jump_take_maybe!(tape, position, this.record_count, this.record_offsets)
         },
     }
 }
-- 
2.43.0


From ab87f0a7fa929f8a0add9ad3510d6352de4e52b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 07/14] fix: compute the size of the deltas of an item
 variation store without overflow and with long words

---
 src/variations/item.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/variations/item.rs b/src/variations/item.rs
index 452679d..5bfc9ac 100644
--- a/src/variations/item.rs
+++ b/src/variations/item.rs
@@ -30,8 +30,13 @@ table! {
         },
 
         deltas (Vec<u8>) |this, tape| { // deltaSets
-            let per_item_count = this.short_delta_count + this.region_count;
-            tape.take_given(this.item_count as usize * per_item_count as usize)
+            let long = this.short_delta_count & 0x8000 > 0;
+            let short_delta_count = (this.short_delta_count & 0x7FFF) as usize;
+            let mut per_item_count = short_delta_count + this.region_count as usize;
+            if long {
+                per_item_count *= 2;
+            }
+            tape.take_given(this.item_count as usize * per_item_count)
         },
     }
 }
-- 
2.43.0


From bced9433839d10832757174a49aa7ecc84db88f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 08/14] fix: do not allocate the deltas of an item variation
 store before reading them

---
 src/variations/item.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/variations/item.rs b/src/variations/item.rs
index 5bfc9ac..97355f7 100644
--- a/src/variations/item.rs
+++ b/src/variations/item.rs
@@ -36,7 +36,11 @@ table! {
             if long {
                 per_item_count *= 2;
             }
-            tape.take_given(this.item_count as usize * per_item_count)
+            let mut deltas = vec![];
+            for _ in 0..this.item_count {
+                deltas.extend(tape.take_given::<Vec<u8>>(per_item_count)?);
+            }
+            Ok(deltas)
         },
     }
 }
-- 
2.43.0


From 0ca544286ee3502c808624422ed3ddeb06b8c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 09/14] fix: reject color palettes that reach beyond the colors

---
 src/tables/color_palettes.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/tables/color_palettes.rs b/src/tables/color_palettes.rs
index 481456e..c6d23bf 100644
--- a/src/tables/color_palettes.rs
+++ b/src/tables/color_palettes.rs
@@ -91,10 +91,27 @@ impl crate::value::Read for ColorPalettes {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
         let position = tape.position()?;
         let header = tape.take()?;
-        let (offset, count) = match header {
-            Header::Version0(ref header) => (header.color_offset, header.color_count as usize),
-            Header::Version1(ref header) => (header.color_offset, header.color_count as usize),
+        let (entry_count, offset, count, indices) = match header {
+            Header::Version0(ref header) => (
+                header.entry_count as usize,
+                header.color_offset,
+                header.color_count as usize,
+                &header.color_indices,
+            ),
+            Header::Version1(ref header) => (
+                header.entry_count as usize,
+                header.color_offset,
+                header.color_count as usize,
+                &header.color_indices,
+            ),
         };
+        if entry_count > 0
+            && indices
+                .iter()
+                .any(|index| *index as usize + entry_count > count)
+        {
+            raise!("found a malformed color palette");
+        }
         let colors = jump_take_given!(@unwrap tape, position, offset, count);
         Ok(Self { header, colors })
     }
-- 
2.43.0


From b07cd61ae9872edda8fe30feb90851d461312369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 10/14] fix: reject marks without anchors unless they are to be
 ignored

---
 src/tables/glyph_positioning/element.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tables/glyph_positioning/element.rs b/src/tables/glyph_positioning/element.rs
index d7de009..26a9643 100644
--- a/src/tables/glyph_positioning/element.rs
+++ b/src/tables/glyph_positioning/element.rs
@@ -331,6 +331,10 @@ impl crate::walue::Read<'static> for Mark1 {
         let class_id = tape.take()?;
         let anchor_offset = tape.take()?;
         #[cfg(not(feature = "ignore-incomplete-marks"))]
+        if anchor_offset == 0 {
+            raise!("found a mark without an anchor");
+        }
+        #[cfg(not(feature = "ignore-incomplete-marks"))]
         let anchor = tape.stay(|tape| jump_take!(tape, position, anchor_offset))?;
         #[cfg(feature = "ignore-incomplete-marks")]
         let anchor = tape
-- 
2.43.0


From f7d034e34e5686f904ab4430a21fe638220f734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 11/14] fix: reject incomplete directories unless they are to
 be ignored

---
 src/layout/directory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/layout/directory.rs b/src/layout/directory.rs
index 5158ee9..2b9e860 100644
--- a/src/layout/directory.rs
+++ b/src/layout/directory.rs
@@ -39,6 +39,10 @@ where
             _ => 0,
         };
         #[cfg(not(feature = "ignore-incomplete-directories"))]
+        if script_offset == 0 || feature_offset == 0 || lookup_offset == 0 {
+            raise!("found an incomplete directory table");
+        }
+        #[cfg(not(feature = "ignore-incomplete-directories"))]
         let (scripts, features, lookups) = (
             jump_take!(@unwrap tape, position, script_offset),
             jump_take!(@unwrap tape, position, feature_offset),
-- 
2.43.0


From 5679c121c03c7af202309a01cf3c633e7b9422f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 12/14] fix: tell Tulu and Tumbuka apart

---
 src/layout/language.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout/language.rs b/src/layout/language.rs
index 6ca167f..f6eea92 100644
--- a/src/layout/language.rs
+++ b/src/layout/language.rs
@@ -625,8 +625,8 @@ implement! {
     b"TRK " => "Turkish" => Turkish => "tur",
     b"TSG " => "Tsonga" => Tsonga => "tso",
     b"TUA " => "Turoyo Aramaic" => TuroyoAramaic => "tru",
-    b"TUM " => "Tulu" => Tulu => "tum",
-    b"TUL " => "Tumbuka" => Tumbuka => "tcy",
+    b"TUM " => "Tumbuka" => Tumbuka => "tum",
+    b"TUL " => "Tulu" => Tulu => "tcy",
     b"TUV " => "Tuvin" => Tuvin => "tyv",
     b"TVL " => "Tuvalu" => Tuvalu => "tvl",
     b"TWI " => "Twi" => Twi => "aka",
-- 
2.43.0


From 70ab1f7d11b6f0ddf15081c75e45da39dddd796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 13/14] fix: reject unknown versions of the font-variations
 table

---
 src/tables/font_variations/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index 509d420..93552e9 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -19,8 +19,8 @@ table! {
     /// The header of a font-variations table.
     #[derive(Copy)]
     pub Header {
-        major_version  (u16), // majorVersion
-        minor_version  (u16), // minorVersion
+        major_version  (u16) = { 1 }, // majorVersion
+        minor_version  (u16) = { 0 }, // minorVersion
         axis_offset    (u16), // axesArrayOffset
         reserved       (u16) = { 2 }, // reserved
         axis_count     (u16), // axisCount
-- 
2.43.0


From 436423d4b089d0485b988671777573edb5d4d0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 14/14] fix: reject tables whose padded size overflows instead
 of summing them up

---
 src/font.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/font.rs b/src/font.rs
index 026ca17..373a59c 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -36,7 +36,9 @@ impl Font {
         for record in &self.offsets.records {
             if record.tag == tag {
                 #[cfg(not(feature = "ignore-invalid-checksums"))]
-                if record.checksum != record.checksum(tape)? {
+                if record.size.checked_add(4).is_none()
+                    || record.checksum != record.checksum(tape)?
+                {
                     raise!("found a malformed font table with {:?}", record.tag);
                 }
                 Read::jump(tape, record.offset as u64)?;
-- 
2.43.0

