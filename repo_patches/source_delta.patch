From 8eff14f0c68e103846590be5b56a9563d69efbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 1/3] fix: bound the nesting of header properties

Struct and array properties recurse without a limit, so a small replay
with deeply nested properties overflowed the stack and aborted the
process. Reject nesting deeper than 128 levels with an error.
---
 src/header.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index c92479f..fec2005 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -78,9 +78,21 @@ enum ParserMode {
     Quirks,
 }
 
+/// How deep struct and array properties may be nested. Replays nest a handful of levels, so
+/// anything deeper is malformed and must not be allowed to exhaust the stack.
+const MAX_NESTING: usize = 128;
+
 fn parse_rdict(
     rlp: &mut CoreParser,
     mode: ParserMode,
+) -> Result<Vec<(String, HeaderProp)>, ParseError> {
+    parse_nested_rdict(rlp, mode, 0)
+}
+
+fn parse_nested_rdict(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: usize,
 ) -> Result<Vec<(String, HeaderProp)>, ParseError> {
     // The return type of this function is a key value vector because since there is no format
     // specification, we can't rule out duplicate keys.
@@ -97,6 +109,9 @@ fn parse_rdict(
         let _size = rlp.take_u32("property size")? as usize;
         let _ignored = rlp.take_data(4)?;
         let val = match kind {
+            "ArrayProperty" | "StructProperty" if depth >= MAX_NESTING => Err(
+                ParseError::UnexpectedProperty(format!("{} nested too deeply", kind)),
+            ),
             "BoolProperty" => match mode {
                 // The size SHOULD be zero, but we're ignoring it.
                 ParserMode::Standard => rlp.take_data(1).map(bool_prop),
@@ -121,7 +136,7 @@ fn parse_rdict(
                     .parse_text()
                     .map(|kind| HeaderProp::Byte { kind, value: None }),
             },
-            "ArrayProperty" => array_property(rlp, mode),
+            "ArrayProperty" => array_property(rlp, mode, depth + 1),
             "FloatProperty" => rlp
                 .take_bytes::<4>()
                 .map(f32::from_le_bytes)
@@ -138,7 +153,7 @@ fn parse_rdict(
             "StrProperty" => rlp.parse_text().map(HeaderProp::Str),
             "StructProperty" => {
                 let name = rlp.parse_str()?;
-                let fields = parse_rdict(rlp, mode)?;
+                let fields = parse_nested_rdict(rlp, mode, depth + 1)?;
                 Ok(HeaderProp::Struct {
                     name: String::from(name),
                     fields,
@@ -157,9 +172,13 @@ fn bool_prop(data: &[u8]) -> HeaderProp {
     HeaderProp::Bool(data[0] == 1)
 }
 
-fn array_property(rlp: &mut CoreParser, mode: ParserMode) -> Result<HeaderProp, ParseError> {
+fn array_property(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: usize,
+) -> Result<HeaderProp, ParseError> {
     let size = rlp.take_i32("array property size")?;
-    let arr = CoreParser::repeat(size as usize, || parse_rdict(rlp, mode))?;
+    let arr = CoreParser::repeat(size as usize, || parse_nested_rdict(rlp, mode, depth))?;
     Ok(HeaderProp::Array(arr))
 }
 
-- 
2.43.0


From 238a2b614e1a55fda0febd51990d8af9e1618492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 2/3] fix: report missing rigid body velocities as an error

A rigid body whose velocities are cut off was decoded as if it had none:
the option returned by the vector decoder was stored instead of being
propagated.
---
 src/network/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network/attributes.rs b/src/network/attributes.rs
index 8230eae..f5cd96f 100644
--- a/src/network/attributes.rs
+++ b/src/network/attributes.rs
@@ -1267,8 +1267,8 @@ impl AttributeDecoder {
         let mut angular_velocity = None;
 
         if !sleeping {
-            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
-            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
+            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
+            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
         }
 
         Some(RigidBody {
-- 
2.43.0


From 0fb0e84f41b5bc2d39f537802bde910442218da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:39 +0000
Subject: [PATCH 3/3] fix: do not take object 0 for a product attribute that is
 not in the object list

---
 src/network/attributes.rs | 40 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/network/attributes.rs b/src/network/attributes.rs
index f5cd96f..dd0834b 100644
--- a/src/network/attributes.rs
+++ b/src/network/attributes.rs
@@ -447,30 +447,20 @@ pub struct LogoData {
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) struct ProductValueDecoder {
     version: VersionTriplet,
-    color_ind: ObjectId,
-    painted_ind: ObjectId,
-    special_edition_ind: ObjectId,
-    team_edition_ind: ObjectId,
-    title_ind: ObjectId,
+    color_ind: Option<ObjectId>,
+    painted_ind: Option<ObjectId>,
+    special_edition_ind: Option<ObjectId>,
+    team_edition_ind: Option<ObjectId>,
+    title_ind: Option<ObjectId>,
 }
 
 impl ProductValueDecoder {
     pub fn create(version: VersionTriplet, object_index: &ObjectIndex) -> Self {
-        let color_ind = object_index
-            .by_name("TAGame.ProductAttribute_UserColor_TA")
-            .unwrap_or_default();
-        let painted_ind = object_index
-            .by_name("TAGame.ProductAttribute_Painted_TA")
-            .unwrap_or_default();
-        let title_ind = object_index
-            .by_name("TAGame.ProductAttribute_TitleID_TA")
-            .unwrap_or_default();
-        let special_edition_ind = object_index
-            .by_name("TAGame.ProductAttribute_SpecialEdition_TA")
-            .unwrap_or_default();
-        let team_edition_ind = object_index
-            .by_name("TAGame.ProductAttribute_TeamEdition_TA")
-            .unwrap_or_default();
+        let color_ind = object_index.by_name("TAGame.ProductAttribute_UserColor_TA");
+        let painted_ind = object_index.by_name("TAGame.ProductAttribute_Painted_TA");
+        let title_ind = object_index.by_name("TAGame.ProductAttribute_TitleID_TA");
+        let special_edition_ind = object_index.by_name("TAGame.ProductAttribute_SpecialEdition_TA");
+        let team_edition_ind = object_index.by_name("TAGame.ProductAttribute_TeamEdition_TA");
 
         ProductValueDecoder {
             version,
@@ -488,7 +478,7 @@ impl ProductValueDecoder {
         obj_ind: ObjectId,
         buf: &mut [u8],
     ) -> Option<ProductValue> {
-        if obj_ind == self.color_ind {
+        if Some(obj_ind) == self.color_ind {
             if self.version >= VersionTriplet(868, 23, 8) {
                 bits.read_u32().map(ProductValue::NewColor)
             } else {
@@ -499,7 +489,7 @@ impl ProductValueDecoder {
                 })
                 .map(|x| x.unwrap_or(ProductValue::NoColor))
             }
-        } else if obj_ind == self.painted_ind {
+        } else if Some(obj_ind) == self.painted_ind {
             if self.version >= VersionTriplet(868, 18, 0) {
                 bits.read_bits(31)
                     .map(|x| x as u32)
@@ -509,13 +499,13 @@ impl ProductValueDecoder {
                     .map(|x| x as u32)
                     .map(ProductValue::OldPaint)
             }
-        } else if obj_ind == self.title_ind {
+        } else if Some(obj_ind) == self.title_ind {
             decode_text(bits, buf).ok().map(ProductValue::Title)
-        } else if obj_ind == self.special_edition_ind {
+        } else if Some(obj_ind) == self.special_edition_ind {
             bits.read_bits(31)
                 .map(|x| x as u32)
                 .map(ProductValue::SpecialEdition)
-        } else if obj_ind == self.team_edition_ind {
+        } else if Some(obj_ind) == self.team_edition_ind {
             if self.version >= VersionTriplet(868, 18, 0) {
                 bits.read_bits(31)
                     .map(|x| x as u32)
-- 
2.43.0

