From d1e2244535d68ebdc44b4b88395a3a7a79d95686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 1/5] fix: do not overflow the cursor when skipping an
 over-long MessagePack item

On targets with a 32-bit usize the announced payload length of EXT_32, STR_32
and BIN_32 items could overflow the index computations in eat_message, which
panics in debug builds and moves the cursor backwards in release builds.
Such an item is longer than any input slice: report UnexpectedEof.
---
 ser-write-msgpack/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index f906d6b..813cc3b 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -373,7 +373,7 @@ impl<'de> Deserializer<'de> {
             BIN_32|STR_32 => Single(self.fetch_u32()?.try_into()?),
             EXT_8 => Single(1usize + usize::from(self.fetch_u8()?)),
             EXT_16 => Single(1usize + usize::from(self.fetch_u16()?)),
-            EXT_32 => Single(1usize + usize::try_from(self.fetch_u32()?)?),
+            EXT_32 => Single(usize::try_from(self.fetch_u32()?)?.checked_add(1).ok_or(Error::UnexpectedEof)?),
             FLOAT_32 => Single(4),
             FLOAT_64 => Single(8),
             UINT_8 => Single(1),
@@ -396,7 +396,7 @@ impl<'de> Deserializer<'de> {
         };
         match mtyp {
             Single(len) => {
-                let index = self.index + len;
+                let index = self.index.checked_add(len).ok_or(Error::UnexpectedEof)?;
                 if index > self.input.len() {
                     return Err(Error::UnexpectedEof)
                 }
-- 
2.43.0


From 6dac69665355f6ddf8d4b881d784264dbd627852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 2/5] fix: deserialize newtype map keys as the keys they wrap

Newtype map keys are serialized transparently, but MapKey forwarded
newtype_struct to deserialize_any, so such a map could not be read back.
---
 ser-write-json/src/de.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 6fb1043..5afbad2 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -1443,9 +1443,16 @@ impl<'de, 'a, P> de::Deserializer<'de> for MapKey<'a, 'de, P>
         visitor.visit_enum(UnitVariantAccess { de: self.de })
     }
 
+    // newtype keys are serialized as the keys they wrap
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+        where V: Visitor<'de>
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     forward_to_deserialize_any! {
         i128 u128 f32 f64 string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
+        bytes byte_buf option unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From 839eca09e4b11d297067a168e1a5249a0ff746f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 3/5] fix: refuse a collected string shorter than its header in
 no_std

Without alloc the value is formatted twice; when the second pass rendered
less than the first, Ok was returned with a header longer than the text.
---
 ser-write-msgpack/src/ser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ser-write-msgpack/src/ser.rs b/ser-write-msgpack/src/ser.rs
index 650c822..eca74c7 100644
--- a/ser-write-msgpack/src/ser.rs
+++ b/ser-write-msgpack/src/ser.rs
@@ -569,7 +569,9 @@ impl<'a, W: SerWrite> ser::Serializer for &'a mut $serializer<W>
         let StringLenCounter(len) = col;
         write_str_len(&mut self.output, len)?;
         let mut col = StringCollector::new(len, &mut self.output);
-        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)
+        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
+        // the header promised exactly `len` bytes
+        (col.len == 0).then_some(()).ok_or(Error::FormatError)
     }
 }
 
-- 
2.43.0


From e91dfb801167d054f5dd6cb8c9be59d82972de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 4/5] fix: do not overflow while counting decoded Base-64
 characters

dcount * 4 / 3 overflows usize for slices longer than three quarters of
usize::MAX / 3 (a 1.4 GB token on 32-bit targets): debug builds panic,
release builds report a wrong number of consumed characters.
dcount is always a multiple of 3 here.
---
 ser-write-json/src/base64.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ser-write-json/src/base64.rs b/ser-write-json/src/base64.rs
index b376cd8..aa3b3e4 100644
--- a/ser-write-json/src/base64.rs
+++ b/ser-write-json/src/base64.rs
@@ -126,7 +126,7 @@ pub fn decode(slice: &mut[u8]) -> (usize, usize) {
     }
     match chunks.remainder().iter().try_fold(1, decode_cell) {
         /* no tail */
-        Ok(1) => (dcount, dcount * 4 / 3),
+        Ok(1) => (dcount, dcount / 3 * 4),
         /* some tail */
         Ok(packed)|Err(packed) => handle_tail(dcount, packed, dest)
     }
@@ -139,7 +139,7 @@ fn handle_tail<'a, I>(mut dcount: usize, mut packed: u32, mut dest: I) -> (usize
     let leftovers = (31 - packed.leading_zeros()) / 6;
     packed <<= leftovers*2;
     let mut tail_dcount = leftovers.saturating_sub(1);
-    let ecount = dcount * 4 / 3 + leftovers as usize;
+    let ecount = dcount / 3 * 4 + leftovers as usize;
     dcount += tail_dcount as usize;
     while tail_dcount != 0 {
         dest.next().unwrap().set((packed >> (tail_dcount * 8)) as u8);
-- 
2.43.0


From d3452c0e4d20d53236f7dc014236e7cd44de9732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 5/5] fix: tinyvec array writers no longer panic or lose
 content past 65535 bytes

tinyvec::ArrayVec keeps its length in a u16: for arrays longer than that
set_len panicked in write and try_push overflowed the length in write_byte
(wrapping to zero in release builds, after which Ok was returned for lost
content). The write now refuses with BufferFull what capacity() cannot hold.
---
 src/foreign.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/foreign.rs b/src/foreign.rs
index 639acf3..1c5ae69 100644
--- a/src/foreign.rs
+++ b/src/foreign.rs
@@ -162,6 +162,10 @@ macro_rules! implement_tinyvec_write {
             if add_len == 0 {
                 return Ok(())
             }
+            // an array longer than u16::MAX is not usable in whole
+            if add_len > self.capacity() - self.len() {
+                return Err(SerError::BufferFull)
+            }
             if let Some(target) = self.grab_spare_slice_mut().get_mut(..add_len) {
                 target.clone_from_slice(buf);
                 self.set_len(self.len() + add_len);
@@ -185,7 +189,7 @@ impl<const CAP: usize> SerWrite for tinyvec::ArrayVec<[u8; CAP]>
 
     #[inline]
     fn write_byte(&mut self, byte: u8) -> SerResult<()> {
-        if self.try_push(byte).is_none() {
+        if self.len() < self.capacity() && self.try_push(byte).is_none() {
             Ok(())
         }
         else {
-- 
2.43.0

