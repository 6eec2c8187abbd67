From 2d35a4a6e362bd190c1b9a0405699b1fca231bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 1/3] fix: a rigid body whose velocities are truncated is an
 error

Some(Vector3f::decode(..))? never fails: a velocity that ran past the end of
the network data turned into None and an awake rigid body without velocities.
---
 src/network/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network/attributes.rs b/src/network/attributes.rs
index 8230eae..f5cd96f 100644
--- a/src/network/attributes.rs
+++ b/src/network/attributes.rs
@@ -1267,8 +1267,8 @@ impl AttributeDecoder {
         let mut angular_velocity = None;
 
         if !sleeping {
-            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
-            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
+            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
+            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
         }
 
         Some(RigidBody {
-- 
2.43.0


From 5995f9452b2505592a12e750f24d3745acae1c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 2/3] fix: count the bytes read of replays beyond 2 GiB without
 overflow

The offset was an i32 that overflowed, a panic in builds with overflow
checks, as soon as the sections read so far exceeded i32::MAX bytes.
---
 src/core_parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core_parser.rs b/src/core_parser.rs
index d033734..ebe2131 100644
--- a/src/core_parser.rs
+++ b/src/core_parser.rs
@@ -6,7 +6,7 @@ pub struct CoreParser<'a> {
     data: &'a [u8],
 
     /// Current offset in regards to the whole view of the replay
-    col: i32,
+    col: usize,
 }
 
 impl<'a> CoreParser<'a> {
@@ -15,7 +15,7 @@ impl<'a> CoreParser<'a> {
     }
 
     pub fn bytes_read(&self) -> i32 {
-        self.col
+        self.col as i32
     }
 
     /// Returns a slice of the replay after ensuring there is enough space for the requested slice
@@ -34,7 +34,7 @@ impl<'a> CoreParser<'a> {
                     N as i32,
                     self.data.len() as i32,
                 ))?;
-        self.col += N as i32;
+        self.col += N;
         self.data = tail;
         Ok(*result)
     }
@@ -47,7 +47,7 @@ impl<'a> CoreParser<'a> {
                 size as i32,
                 self.data.len() as i32,
             ))?;
-        self.col += size as i32;
+        self.col += size;
         self.data = tail;
         Ok(head)
     }
@@ -61,7 +61,7 @@ impl<'a> CoreParser<'a> {
                     N as i32,
                     self.data.len() as i32,
                 ))?;
-        self.col += N as i32;
+        self.col += N;
         self.data = tail;
         Ok(*head)
     }
-- 
2.43.0


From 03eafc346f0b8a44aba120e83b38cdbeec9f885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 3/3] fix: limit the nesting of header properties

A header of a few megabytes that nests structs or arrays exhausted the stack
and aborted the process.
---
 src/header.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index c92479f..1cba672 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -78,10 +78,28 @@ enum ParserMode {
     Quirks,
 }
 
+/// How deep arrays and structs can be nested inside header properties. They are parsed recursively,
+/// so without a limit a small but malicious header exhausts the stack.
+const MAX_PROPERTY_DEPTH: u32 = 64;
+
 fn parse_rdict(
     rlp: &mut CoreParser,
     mode: ParserMode,
 ) -> Result<Vec<(String, HeaderProp)>, ParseError> {
+    parse_nested_rdict(rlp, mode, 0)
+}
+
+fn parse_nested_rdict(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: u32,
+) -> Result<Vec<(String, HeaderProp)>, ParseError> {
+    if depth > MAX_PROPERTY_DEPTH {
+        return Err(ParseError::UnexpectedProperty(String::from(
+            "properties nested too deeply",
+        )));
+    }
+
     // The return type of this function is a key value vector because since there is no format
     // specification, we can't rule out duplicate keys.
     let mut res: Vec<_> = Vec::new();
@@ -121,7 +139,7 @@ fn parse_rdict(
                     .parse_text()
                     .map(|kind| HeaderProp::Byte { kind, value: None }),
             },
-            "ArrayProperty" => array_property(rlp, mode),
+            "ArrayProperty" => array_property(rlp, mode, depth),
             "FloatProperty" => rlp
                 .take_bytes::<4>()
                 .map(f32::from_le_bytes)
@@ -138,7 +156,7 @@ fn parse_rdict(
             "StrProperty" => rlp.parse_text().map(HeaderProp::Str),
             "StructProperty" => {
                 let name = rlp.parse_str()?;
-                let fields = parse_rdict(rlp, mode)?;
+                let fields = parse_nested_rdict(rlp, mode, depth + 1)?;
                 Ok(HeaderProp::Struct {
                     name: String::from(name),
                     fields,
@@ -157,9 +175,13 @@ fn bool_prop(data: &[u8]) -> HeaderProp {
     HeaderProp::Bool(data[0] == 1)
 }
 
-fn array_property(rlp: &mut CoreParser, mode: ParserMode) -> Result<HeaderProp, ParseError> {
+fn array_property(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: u32,
+) -> Result<HeaderProp, ParseError> {
     let size = rlp.take_i32("array property size")?;
-    let arr = CoreParser::repeat(size as usize, || parse_rdict(rlp, mode))?;
+    let arr = CoreParser::repeat(size as usize, || parse_nested_rdict(rlp, mode, depth + 1))?;
     Ok(HeaderProp::Array(arr))
 }
 
-- 
2.43.0

