From 284d35171ec1fed4cec4e7e66efa5d48a4906e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 01/13] fix: read the variations of the glyph definition at
 their own offset

---
 src/tables/glyph_definition/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/mod.rs b/src/tables/glyph_definition/mod.rs
index ae7c79d..1a9db68 100644
--- a/src/tables/glyph_definition/mod.rs
+++ b/src/tables/glyph_definition/mod.rs
@@ -74,7 +74,7 @@ table! {
             jump_take_maybe!(
                 tape,
                 position,
-                field!(this.header => mark_offset(0), Header::{Version13})
+                field!(this.header => variation_offset(0), Header::{Version13})
             )
         },
     }
-- 
2.43.0


From eb96181f448e268b1011bab579c285da72f3e46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 02/13] fix: read the format of caret values as a 16-bit number

---
 src/tables/glyph_definition/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/element.rs b/src/tables/glyph_definition/element.rs
index 4eb5990..3e2f77b 100644
--- a/src/tables/glyph_definition/element.rs
+++ b/src/tables/glyph_definition/element.rs
@@ -132,7 +132,7 @@ table! {
 
 impl crate::value::Read for Caret {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
-        Ok(match tape.peek::<u32>()? {
+        Ok(match tape.peek::<u16>()? {
             1 => Self::Format1(tape.take()?),
             2 => Self::Format2(tape.take()?),
             3 => Self::Format3(tape.take()?),
-- 
2.43.0


From 71ff2bb998f538e6351e9e51c762302b5a5fc9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 03/13] fix: do not read an extra word of device corrections

---
 src/layout/correction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/correction.rs b/src/layout/correction.rs
index 944959e..b6d8e8c 100644
--- a/src/layout/correction.rs
+++ b/src/layout/correction.rs
@@ -61,7 +61,7 @@ impl crate::value::Read for Device {
         }
         let count = (end_size - start_size) as usize + 1;
         let bit_count = (1 << format as usize) * count;
-        let short_count = (bit_count + 16 - bit_count % 16) >> 4;
+        let short_count = (bit_count + 15) >> 4;
         let deltas = tape.take_given(short_count)?;
         Ok(Device {
             start_size,
-- 
2.43.0


From 17ba5fcb8f404c0d12343ff00ca6efb79f0fcd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 04/13] fix: avoid an overflow when counting the deltas of item
 variations

---
 src/variations/item.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variations/item.rs b/src/variations/item.rs
index 452679d..99a5203 100644
--- a/src/variations/item.rs
+++ b/src/variations/item.rs
@@ -30,8 +30,8 @@ table! {
         },
 
         deltas (Vec<u8>) |this, tape| { // deltaSets
-            let per_item_count = this.short_delta_count + this.region_count;
-            tape.take_given(this.item_count as usize * per_item_count as usize)
+            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
+            tape.take_given(this.item_count as usize * per_item_count)
         },
     }
 }
-- 
2.43.0


From 15d1d1301f59779218591e6bbc12371263979088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 05/13] fix: allow for null rule sets in contextual lookups in
 format 1

---
 src/layout/context.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout/context.rs b/src/layout/context.rs
index 9cd7279..5e29bc1 100644
--- a/src/layout/context.rs
+++ b/src/layout/context.rs
@@ -32,8 +32,8 @@ table! {
             jump_take!(tape, position, this.coverage_offset)
         },
 
-        records (Vec<Records>) |this, tape, position| {
-            jump_take!(tape, position, this.record_count, this.record_offsets)
+        records (Vec<Option<Records>>) |this, tape, position| {
+            jump_take_maybe!(tape, position, this.record_count, this.record_offsets)
         },
     }
 }
@@ -114,8 +114,8 @@ table! {
             jump_take!(tape, position, this.coverage_offset)
         },
 
-        records (Vec<ChainedRecords>) |this, tape, position| {
-            jump_take!(tape, position, this.record_count, this.record_offsets)
+        records (Vec<Option<ChainedRecords>>) |this, tape, position| {
+            jump_take_maybe!(tape, position, this.record_count, this.record_offsets)
         },
     }
 }
-- 
2.43.0


From 7b0169ef19a6bbaab0f971466ec6bf6f25c45d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 06/13] fix: allow for instance records without a PostScript
 name

---
 src/tables/font_variations/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index 8a2ae59..8f1178c 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -84,7 +84,7 @@ impl crate::value::Read for FontVariations {
         let instance_records = (0..header.instance_count as u64)
             .map(|i| {
                 tape.jump(position + i * header.instance_size as u64)?;
-                tape.take_given(header.axis_count)
+                tape.take_given((header.axis_count, header.instance_size))
             })
             .collect::<Result<Vec<_>>>()?;
         Ok(Self {
@@ -96,14 +96,21 @@ impl crate::value::Read for FontVariations {
 }
 
 impl crate::walue::Read<'static> for InstanceRecord {
-    type Parameter = u16;
+    type Parameter = (u16, u16);
 
-    fn read<T: crate::tape::Read>(tape: &mut T, axis_count: Self::Parameter) -> Result<Self> {
+    fn read<T: crate::tape::Read>(
+        tape: &mut T,
+        (axis_count, instance_size): Self::Parameter,
+    ) -> Result<Self> {
         Ok(Self {
             subfamily_name_id: tape.take()?,
             flags: tape.take()?,
             coordinates: tape.take_given(axis_count as usize)?,
-            postscript_name_id: tape.take()?,
+            postscript_name_id: if instance_size as usize >= 4 * axis_count as usize + 6 {
+                tape.take()?
+            } else {
+                NameID::from(0xFFFF)
+            },
         })
     }
 }
-- 
2.43.0


From 46db17badb3ed8313cfef99248b3d926da0f5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 07/13] fix: check the version of the font-variations table

---
 src/tables/font_variations/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index 8f1178c..3c98518 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -19,8 +19,8 @@ table! {
     /// The header of a font-variations table.
     #[derive(Copy)]
     pub Header {
-        major_version  (u16), // majorVersion
-        minor_version  (u16), // minorVersion
+        major_version  (u16) = { 1 }, // majorVersion
+        minor_version  (u16) = { 0 }, // minorVersion
         axis_offset    (u16), // axesArrayOffset
         reserved       (u16) = { 2 }, // reserved
         axis_count     (u16), // axisCount
-- 
2.43.0


From 0c7884d292c706eeed863d6c7d020cd08739b8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 08/13] fix: check the format of reverse chained contextual
 substitutions

---
 src/tables/glyph_substitution/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_substitution/mod.rs b/src/tables/glyph_substitution/mod.rs
index 77c06ff..45f4acd 100644
--- a/src/tables/glyph_substitution/mod.rs
+++ b/src/tables/glyph_substitution/mod.rs
@@ -147,7 +147,7 @@ table! {
     @position
     /// A reversed chained contextual substitution.
     pub ReverseChainedContextualSubstibution { // ReverseChainSingleSubstFormat1
-        format               (u16), // substFormat
+        format               (u16) = { 1 }, // substFormat
         coverage_offset      (u16), // coverageOffset
         backward_glyph_count (u16), // backtrackGlyphCount
 
-- 
2.43.0


From 03052462fc39e82125b69d3f9e28a68249a8b656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 09/13] fix: reject palettes that reach beyond the available
 colors

---
 src/tables/color_palettes.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/tables/color_palettes.rs b/src/tables/color_palettes.rs
index 481456e..a1f857f 100644
--- a/src/tables/color_palettes.rs
+++ b/src/tables/color_palettes.rs
@@ -91,10 +91,23 @@ impl crate::value::Read for ColorPalettes {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
         let position = tape.position()?;
         let header = tape.take()?;
-        let (offset, count) = match header {
-            Header::Version0(ref header) => (header.color_offset, header.color_count as usize),
-            Header::Version1(ref header) => (header.color_offset, header.color_count as usize),
+        let (offset, count, entry_count, color_indices) = match header {
+            Header::Version0(ref header) => (
+                header.color_offset,
+                header.color_count as usize,
+                header.entry_count as usize,
+                &header.color_indices,
+            ),
+            Header::Version1(ref header) => (
+                header.color_offset,
+                header.color_count as usize,
+                header.entry_count as usize,
+                &header.color_indices,
+            ),
         };
+        if color_indices.iter().any(|index| *index as usize + entry_count > count) {
+            raise!("found a malformed palette in the color-palette table");
+        }
         let colors = jump_take_given!(@unwrap tape, position, offset, count);
         Ok(Self { header, colors })
     }
-- 
2.43.0


From 25ce2b5e79467f89a09ef28d65f9b642d08994a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 10/13] fix: do not confuse Tulu with Tumbuka

---
 src/layout/language.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout/language.rs b/src/layout/language.rs
index 6ca167f..f6eea92 100644
--- a/src/layout/language.rs
+++ b/src/layout/language.rs
@@ -625,8 +625,8 @@ implement! {
     b"TRK " => "Turkish" => Turkish => "tur",
     b"TSG " => "Tsonga" => Tsonga => "tso",
     b"TUA " => "Turoyo Aramaic" => TuroyoAramaic => "tru",
-    b"TUM " => "Tulu" => Tulu => "tum",
-    b"TUL " => "Tumbuka" => Tumbuka => "tcy",
+    b"TUM " => "Tumbuka" => Tumbuka => "tum",
+    b"TUL " => "Tulu" => Tulu => "tcy",
     b"TUV " => "Tuvin" => Tuvin => "tyv",
     b"TVL " => "Tuvalu" => Tuvalu => "tvl",
     b"TWI " => "Twi" => Twi => "aka",
-- 
2.43.0


From 653e73cecf14a7b40c58d8a8b638a75e498d7b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 11/13] fix: reject font tables whose padded size overflows

---
 src/font.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/font.rs b/src/font.rs
index 026ca17..e1a93eb 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -36,7 +36,7 @@ impl Font {
         for record in &self.offsets.records {
             if record.tag == tag {
                 #[cfg(not(feature = "ignore-invalid-checksums"))]
-                if record.checksum != record.checksum(tape)? {
+                if record.size > u32::MAX - 3 || record.checksum != record.checksum(tape)? {
                     raise!("found a malformed font table with {:?}", record.tag);
                 }
                 Read::jump(tape, record.offset as u64)?;
-- 
2.43.0


From c43ab691eba6657d5b72a870ac4798578613496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 12/13] fix: reject the largest font tables whose padded size
 overflows

---
 src/font.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/font.rs b/src/font.rs
index e1a93eb..0a2ea08 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -36,7 +36,7 @@ impl Font {
         for record in &self.offsets.records {
             if record.tag == tag {
                 #[cfg(not(feature = "ignore-invalid-checksums"))]
-                if record.size > u32::MAX - 3 || record.checksum != record.checksum(tape)? {
+                if record.size >= u32::MAX - 3 || record.checksum != record.checksum(tape)? {
                     raise!("found a malformed font table with {:?}", record.tag);
                 }
                 Read::jump(tape, record.offset as u64)?;
-- 
2.43.0


From 02a8c6309f388ad7d13b876adf284678eef6a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 13/13] fix: do not request memory for item variations before
 reading them

---
 src/variations/item.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/variations/item.rs b/src/variations/item.rs
index 99a5203..428467e 100644
--- a/src/variations/item.rs
+++ b/src/variations/item.rs
@@ -31,7 +31,11 @@ table! {
 
         deltas (Vec<u8>) |this, tape| { // deltaSets
             let per_item_count = this.short_delta_count as usize + this.region_count as usize;
-            tape.take_given(this.item_count as usize * per_item_count)
+            let mut values = vec![];
+            for _ in 0..this.item_count {
+                values.extend(tape.take_given::<Vec<u8>>(per_item_count)?);
+            }
+            Ok(values)
         },
     }
 }
-- 
2.43.0

