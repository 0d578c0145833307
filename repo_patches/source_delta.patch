From 05fb14749eef0de6110bfa566c746bbe3806ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:45 +0000
Subject: [PATCH 01/43] fix: reject compound values with size smaller than the
 count field

The size of a list, map or array covers its count field. A peer sending a
smaller size caused an arithmetic underflow (panic with overflow checks).
---
 codec/src/codec/decode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 8985fcc..832989a 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -594,7 +594,8 @@ fn decode_frame_header(input: &mut Bytes, expected_frame_type: u8) -> Result<u16
 
 fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 2);
-    let size = input[0] - 1; // -1 for 1 byte count
+    // -1 for 1 byte count
+    let size = input[0].checked_sub(1).ok_or(AmqpParseError::InvalidSize)?;
     let count = input[1];
     input.advance(2);
     Ok((u32::from(size), u32::from(count)))
@@ -602,7 +603,10 @@ fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
 
 fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    // -4 for 4 byte count
+    let size = BigEndian::read_u32(input)
+        .checked_sub(4)
+        .ok_or(AmqpParseError::InvalidSize)?;
     let count = BigEndian::read_u32(&input[4..]);
     input.advance(8);
     Ok((size, count))
-- 
2.43.0


From d6e39b2f79e60d8706e1602155f0ab73150bf139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 02/43] fix: do not reserve memory for more items than received
 bytes

List, map and array decoders reserved memory for the item count announced
by the peer, up to 2^32 items, before looking at the data.
---
 codec/src/codec/decode.rs | 25 +++++++++++++++++--------
 codec/src/types/array.rs  |  4 ++--
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 832989a..2058cf0 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -1,4 +1,4 @@
-use std::{char, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
+use std::{char, cmp, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
 
 use byteorder::{BigEndian, ByteOrder};
 use chrono::{DateTime, TimeZone, Utc};
@@ -38,6 +38,13 @@ fn read_i8(input: &mut Bytes) -> Result<i8, AmqpParseError> {
     Ok(code)
 }
 
+/// Number of items to reserve memory for.
+///
+/// The item count is supplied by the peer, do not trust it beyond the size of available data.
+pub(crate) fn capacity(count: u32, input: &Bytes) -> usize {
+    cmp::min(count as usize, input.len())
+}
+
 fn read_bytes_u8(input: &mut Bytes) -> Result<Bytes, AmqpParseError> {
     let len = read_u8(input)?;
     let len = len as usize;
@@ -247,8 +254,10 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map: collections::HashMap<K, V, S> =
-            collections::HashMap::with_capacity_and_hasher(count as usize, Default::default());
+        let mut map: collections::HashMap<K, V, S> = collections::HashMap::with_capacity_and_hasher(
+            capacity(count, &map_input),
+            Default::default(),
+        );
         for _ in 0..count {
             let key = K::decode(&mut map_input)?;
             let value = V::decode(&mut map_input)?;
@@ -271,7 +280,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
                 return Err(AmqpParseError::InvalidDescriptor(Box::new(descriptor)));
             }
         };
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(capacity(header.count, input));
         for _ in 0..header.count {
             let decoded = T::decode_with_format(input, elem_fmt)?;
             result.push(decoded);
@@ -287,7 +296,7 @@ impl DecodeFormatted for VecSymbolMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(capacity(count, &map_input));
         for _ in 0..count {
             let key = Symbol::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
@@ -304,7 +313,7 @@ impl DecodeFormatted for VecStringMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(capacity(count, &map_input));
         for _ in 0..count {
             let key = Str::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
@@ -338,7 +347,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Multiple<T> {
 impl DecodeFormatted for List {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<Variant> = Vec::with_capacity(capacity(header.count, input));
         for _ in 0..header.count {
             let decoded = Variant::decode(input)?;
             result.push(decoded);
@@ -352,7 +361,7 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
         let header = ListHeader::decode_with_format(input, fmt)?;
 
         let descr = T::descriptor();
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(capacity(header.count, input));
         for _ in 0..header.count {
             if let Variant::DescribedCompound(decoded) = Variant::decode(input)? {
                 if &descr != decoded.descriptor() {
diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index 5dc5337..0a5da0b 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -1,6 +1,6 @@
 use ntex_bytes::{BufMut, Bytes, BytesMut};
 
-use crate::codec::{self, ArrayEncode, ArrayHeader, Decode, DecodeFormatted, Encode};
+use crate::codec::{self, ArrayEncode, ArrayHeader, Decode, DecodeFormatted, Encode, decode};
 use crate::error::AmqpParseError;
 use crate::types::Constructor;
 
@@ -39,7 +39,7 @@ impl Array {
     /// AMQP type of array's element constructor. Use `Array::element_constructor` to access full constructor if needed.
     pub fn decode<T: DecodeFormatted>(&self) -> Result<Vec<T>, AmqpParseError> {
         let mut buf = self.payload.clone();
-        let mut result: Vec<T> = Vec::with_capacity(self.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(decode::capacity(self.count, &buf));
         for _ in 0..self.count {
             let decoded = T::decode_with_format(&mut buf, self.element_constructor.format_code())?;
             result.push(decoded);
-- 
2.43.0


From afd7ab6568b164c72205e18532a30c011bef6ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 03/43] fix: implement Hash for VariantMap

Decoding a map with a key that is (or contains) a map panicked.
---
 codec/src/types/variant.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/codec/src/types/variant.rs b/codec/src/types/variant.rs
index 1c56460..00bf1be 100644
--- a/codec/src/types/variant.rs
+++ b/codec/src/types/variant.rs
@@ -1,4 +1,4 @@
-use std::hash::{Hash, Hasher};
+use std::hash::{DefaultHasher, Hash, Hasher};
 
 use chrono::{DateTime, Utc};
 use ntex_bytes::{ByteString, Bytes, BytesMut};
@@ -253,8 +253,15 @@ impl VariantMap {
 
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // equal maps may iterate in different order, combine entries hashes order independently
+        let mut combined: u64 = 0;
+        for entry in &self.map {
+            let mut hasher = DefaultHasher::new();
+            entry.hash(&mut hasher);
+            combined = combined.wrapping_add(hasher.finish());
+        }
+        state.write_u64(combined);
     }
 }
 
-- 
2.43.0


From 6826854845db311fc0568901aec21173125fe2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 04/43] fix: decode timestamps before 1970

-999..-1 milliseconds lost the sign and whole negative seconds were
rejected.
---
 codec/src/codec/decode.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 2058cf0..97f85bc 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -622,21 +622,12 @@ fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
 }
 
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds - 1, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    }
+    // milliseconds before 1970 are negative, keep fraction of a second positive
+    let seconds = millis.div_euclid(1000);
+    let nanoseconds = millis.rem_euclid(1000) * 1_000_000;
+    Utc.timestamp_opt(seconds, nanoseconds as u32)
+        .earliest()
+        .ok_or(AmqpParseError::DatetimeParseError)
 }
 
 fn read_fixed_bytes<const N: usize>(input: &mut Bytes) -> Result<[u8; N], AmqpParseError> {
-- 
2.43.0


From 7d2f0e1a5105f16a35a55ba8d1f806864cfd9a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:14 +0000
Subject: [PATCH 05/43] fix: encode arrays with more than 255 zero-width items

The count was truncated to one byte.
---
 codec/src/types/array.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index 0a5da0b..ea4163e 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -35,6 +35,11 @@ impl Array {
         &self.element_constructor
     }
 
+    /// Size or count does not fit into one byte. Items may be zero-width, count can exceed size.
+    fn is_array32(&self, ctor_len: usize) -> bool {
+        self.payload.len() + ctor_len + 1 > u8::MAX as usize || self.count > u32::from(u8::MAX)
+    }
+
     /// Attempts to decode the array into a vector of type `T`. Format code supplied to T::decode_with_format is the format code of the underlying
     /// AMQP type of array's element constructor. Use `Array::element_constructor` to access full constructor if needed.
     pub fn decode<T: DecodeFormatted>(&self) -> Result<Vec<T>, AmqpParseError> {
@@ -60,7 +65,7 @@ where
 impl Encode for Array {
     fn encoded_size(&self) -> usize {
         let ctor_len = self.element_constructor.encoded_size();
-        let header_len = if self.payload.len() + ctor_len + 1 > u8::MAX as usize {
+        let header_len = if self.is_array32(ctor_len) {
             9 // 1 for format code, 4 for size, 4 for count
         } else {
             3 // 1 for format code, 1 for size, 1 for count
@@ -71,7 +76,7 @@ impl Encode for Array {
 
     fn encode(&self, buf: &mut BytesMut) {
         let ctor_len = self.element_constructor.encoded_size();
-        if self.payload.len() + ctor_len + 1 > u8::MAX as usize {
+        if self.is_array32(ctor_len) {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32((4 + ctor_len + self.payload.len()) as u32); // size. 4 for count
             buf.put_u32(self.count);
-- 
2.43.0


From 4da1cfe3a396aa376e8cad1a71b0df3eae7344c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 06/43] fix: do not cache encoded size of a message

The cached value was not reset by body_mut(), set_value(), *_mut()
accessors and direct field access, so the announced size of a frame did
not match its content. The cache also took part in message comparison.
---
 codec/src/message/message.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/codec/src/message/message.rs b/codec/src/message/message.rs
index 3ceb4cb..60b9567 100644
--- a/codec/src/message/message.rs
+++ b/codec/src/message/message.rs
@@ -1,5 +1,3 @@
-use std::cell::Cell;
-
 use ntex_bytes::{Bytes, BytesMut};
 
 use crate::codec::{Decode, Encode};
@@ -23,7 +21,6 @@ pub struct MessageInner {
     pub application_properties: Option<VecStringMap>,
     pub footer: Option<Annotations>,
     pub body: MessageBody,
-    size: Cell<usize>,
 }
 
 impl Message {
@@ -55,7 +52,6 @@ impl Message {
     /// Set message header
     pub fn set_header(&mut self, header: Header) -> &mut Self {
         self.0.header = Some(header);
-        self.0.size.set(0);
         self
     }
 
@@ -79,7 +75,6 @@ impl Message {
             self.0.properties = Some(Properties::default());
         }
 
-        self.0.size.set(0);
         self.0.properties.as_mut().unwrap()
     }
 
@@ -96,7 +91,6 @@ impl Message {
             f(&mut props);
             self.0.properties = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -138,7 +132,6 @@ impl Message {
             props.push((key.into(), value.into()));
             self.0.application_properties = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -168,7 +161,6 @@ impl Message {
             props.push((key.into(), value.into()));
             self.0.message_annotations = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -202,7 +194,6 @@ impl Message {
     where
         F: Fn(Self) -> Self,
     {
-        self.0.size.set(0);
         f(self)
     }
 
@@ -213,7 +204,6 @@ impl Message {
         F: Fn(Self, &T) -> Self,
     {
         if let Some(val) = value {
-            self.0.size.set(0);
             f(self, val)
         } else {
             self
@@ -252,7 +242,6 @@ impl Message {
         F: FnOnce(&mut MessageBody),
     {
         f(&mut self.0.body);
-        self.0.size.set(0);
         self
     }
 
@@ -314,11 +303,6 @@ impl Decode for Message {
 
 impl Encode for Message {
     fn encoded_size(&self) -> usize {
-        let size = self.0.size.get();
-        if size != 0 {
-            return size;
-        }
-
         let mut size = self.0.body.encoded_size();
 
         if let Some(ref h) = self.0.header {
@@ -339,7 +323,6 @@ impl Encode for Message {
         if let Some(ref f) = self.0.footer {
             size += f.encoded_size() + SECTION_PREFIX_LENGTH;
         }
-        self.0.size.set(size);
         size
     }
 
-- 
2.43.0


From 399de78fa8e0acb00a6b6f3841c624bc73b5a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:10 +0000
Subject: [PATCH 07/43] fix: limit nesting of decoded values

Decoding of lists, maps and described values is recursive, several
kilobytes of nested values exhausted the stack.
---
 codec/src/codec/decode.rs | 60 ++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 97f85bc..04ef750 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -346,14 +346,47 @@ impl<T: DecodeFormatted> DecodeFormatted for Multiple<T> {
 
 impl DecodeFormatted for List {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
-        let header = ListHeader::decode_with_format(input, fmt)?;
-        let mut result: Vec<Variant> = Vec::with_capacity(capacity(header.count, input));
-        for _ in 0..header.count {
-            let decoded = Variant::decode(input)?;
-            result.push(decoded);
-        }
-        Ok(List(result))
+        decode_list(input, fmt, MAX_NESTING)
+    }
+}
+
+/// Nesting of values is limited, decoder is recursive and depth is controlled by the peer.
+const MAX_NESTING: u8 = 64;
+
+fn enter(depth: u8) -> Result<u8, AmqpParseError> {
+    depth
+        .checked_sub(1)
+        .ok_or(AmqpParseError::UnexpectedType("Nesting level is too deep"))
+}
+
+fn decode_list(input: &mut Bytes, fmt: u8, depth: u8) -> Result<List, AmqpParseError> {
+    let depth = enter(depth)?;
+    let header = ListHeader::decode_with_format(input, fmt)?;
+    let mut result: Vec<Variant> = Vec::with_capacity(capacity(header.count, input));
+    for _ in 0..header.count {
+        let item_fmt = codec::decode_format_code(input)?;
+        let decoded = Variant::decode_nested(input, item_fmt, depth)?;
+        result.push(decoded);
+    }
+    Ok(List(result))
+}
+
+fn decode_map(input: &mut Bytes, fmt: u8, depth: u8) -> Result<VariantMap, AmqpParseError> {
+    let depth = enter(depth)?;
+    let header = MapHeader::decode_with_format(input, fmt)?;
+    decode_check_len!(input, header.size as usize);
+    let mut map_input = input.split_to(header.size as usize);
+    let count = header.count / 2;
+    let mut map: HashMap<Variant, Variant> =
+        HashMap::with_capacity_and_hasher(capacity(count, &map_input), Default::default());
+    for _ in 0..count {
+        let key_fmt = codec::decode_format_code(&mut map_input)?;
+        let key = Variant::decode_nested(&mut map_input, key_fmt, depth)?;
+        let value_fmt = codec::decode_format_code(&mut map_input)?;
+        let value = Variant::decode_nested(&mut map_input, value_fmt, depth)?;
+        map.insert(key, value);
     }
+    Ok(VariantMap::new(map))
 }
 
 impl<T: Composite> DecodeFormatted for ListDescribed<T> {
@@ -379,6 +412,12 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
 
 impl DecodeFormatted for Variant {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
+        Variant::decode_nested(input, fmt, MAX_NESTING)
+    }
+}
+
+impl Variant {
+    fn decode_nested(input: &mut Bytes, fmt: u8, depth: u8) -> Result<Self, AmqpParseError> {
         match fmt {
             codec::FORMATCODE_NULL => Ok(Variant::Null),
             codec::FORMATCODE_BOOLEAN => bool::decode_with_format(input, fmt).map(Variant::Boolean),
@@ -423,14 +462,13 @@ impl DecodeFormatted for Variant {
             }
             codec::FORMATCODE_LIST0 => Ok(Variant::List(List(vec![]))),
             codec::FORMATCODE_LIST8 | codec::FORMATCODE_LIST32 => {
-                List::decode_with_format(input, fmt).map(Variant::List)
+                decode_list(input, fmt, depth).map(Variant::List)
             }
             codec::FORMATCODE_ARRAY8 | codec::FORMATCODE_ARRAY32 => {
                 Array::decode_with_format(input, fmt).map(Variant::Array)
             }
             codec::FORMATCODE_MAP8 | codec::FORMATCODE_MAP32 => {
-                HashMap::<Variant, Variant>::decode_with_format(input, fmt)
-                    .map(|o| Variant::Map(VariantMap::new(o)))
+                decode_map(input, fmt, depth).map(Variant::Map)
             }
             codec::FORMATCODE_DESCRIBED => {
                 let descriptor = Descriptor::decode(input)?;
@@ -469,7 +507,7 @@ impl DecodeFormatted for Variant {
                     }
                     _ => {
                         input.advance(1); // advance past format code
-                        let value = Variant::decode_with_format(input, format_code)?;
+                        let value = Variant::decode_nested(input, format_code, enter(depth)?)?;
                         Ok(Variant::Described((descriptor, Box::new(value))))
                     }
                 }
-- 
2.43.0


From 6d98d2a51d5cfd6bd66c1bed735c4430c3ce64fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 08/43] fix: decode descriptors with ulong zero value

---
 codec/src/codec/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 04ef750..782e44c 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -532,7 +532,9 @@ impl DecodeFormatted for Descriptor {
             codec::FORMATCODE_SMALLULONG => {
                 u64::decode_with_format(input, fmt).map(Descriptor::Ulong)
             }
-            codec::FORMATCODE_ULONG => u64::decode_with_format(input, fmt).map(Descriptor::Ulong),
+            codec::FORMATCODE_ULONG | codec::FORMATCODE_ULONG_0 => {
+                u64::decode_with_format(input, fmt).map(Descriptor::Ulong)
+            }
             codec::FORMATCODE_SYMBOL8 => {
                 Symbol::decode_with_format(input, fmt).map(Descriptor::Symbol)
             }
-- 
2.43.0


From 7cced155bc002f443788d0e5826bc579c0833acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:35 +0000
Subject: [PATCH 09/43] fix: Session::end() marks its own session as closing

sessions are kept by local channel id, the remote id was used
---
 src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index 099cfbc..e3a8180 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -105,7 +105,7 @@ impl Session {
             Either::Left(Ready::Ok(()))
         } else {
             if !inner.flags.contains(Flags::ENDING) {
-                inner.sink.close_session(inner.remote_channel_id as usize);
+                inner.sink.close_session(inner.id);
                 inner.post_frame(Frame::End(End { error: None }));
                 inner.flags.insert(Flags::ENDING);
                 inner
-- 
2.43.0


From e2ffe75ad1dc56a15ca044aea27511569716f9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:36 +0000
Subject: [PATCH 10/43] fix: a failed connection completes pending
 Session::end() calls

---
 src/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 46570e2..422ba77 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -220,8 +220,8 @@ impl ConnectionInner {
         log::trace!("{}: Set connection error: {:?}", self.io.tag(), err);
         for (_, channel) in &mut self.sessions {
             match channel {
-                SessionState::Opening(_, _) | SessionState::Closing(_) => (),
-                SessionState::Established(ses) => {
+                SessionState::Opening(_, _) => (),
+                SessionState::Established(ses) | SessionState::Closing(ses) => {
                     ses.get_mut().set_error(err.clone());
                 }
             }
-- 
2.43.0


From 5a166efe23af4ec655200cbc9fdc1de97df24a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 11/43] fix: remote detach fails the pending transfers of its
 own link

pending transfers keep the local link handle, the remote handle was used
---
 src/session.rs | 2 +-
 src/sndlink.rs | 4 ----
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index e3a8180..2b35659 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -977,7 +977,7 @@ impl SessionInner {
 
                         // drop pending transfers
                         let mut idx = 0;
-                        let handle = link.inner.get_ref().remote_handle();
+                        let handle = link.inner.get_ref().id() as Handle;
                         while idx < self.pending_transfers.len() {
                             if self.pending_transfers[idx].link_handle == handle {
                                 let tr = self.pending_transfers.remove(idx).unwrap();
diff --git a/src/sndlink.rs b/src/sndlink.rs
index a4d1018..95d87f4 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -230,10 +230,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn remote_handle(&self) -> Handle {
-        self.remote_handle
-    }
-
     pub(crate) fn name(&self) -> &ByteString {
         &self.name
     }
-- 
2.43.0


From 1320e6120153487da873a6a45919af7e0de2304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:42 +0000
Subject: [PATCH 12/43] fix: link credit does not wrap if more transfers are
 in-flight than the new credit

---
 src/sndlink.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/sndlink.rs b/src/sndlink.rs
index 95d87f4..30537a7 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -288,11 +288,15 @@ impl SenderLinkInner {
     pub(crate) fn apply_flow(&mut self, flow: &Flow) {
         // #2.7.6
         if let Some(credit) = flow.link_credit() {
-            let new_credit = flow
-                .delivery_count()
-                .unwrap_or(0)
-                .wrapping_add(credit)
-                .wrapping_sub(self.delivery_count);
+            let in_flight = self
+                .delivery_count
+                .wrapping_sub(flow.delivery_count().unwrap_or(0));
+            let new_credit = if in_flight > credit && in_flight <= i32::MAX as u32 {
+                // more transfers are in-flight than new limit allows
+                0
+            } else {
+                credit.wrapping_sub(in_flight)
+            };
 
             log::trace!(
                 "{}: Apply sender link {:?} flow, credit: {:?}, delivery count: {:?}, local delivery count: {:?}, pending: {:?}, old credit {:?}",
-- 
2.43.0


From 78fab8deef0be68b52868f6c2558f13ba417caed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 13/43] fix: remote incoming window does not wrap and counts
 from initial outgoing id

---
 src/session.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 2b35659..32c039a 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1130,11 +1130,16 @@ impl SessionInner {
         self.next_incoming_id = flow.next_outgoing_id();
         self.remote_outgoing_window = flow.outgoing_window();
 
-        self.remote_incoming_window = flow
-            .next_incoming_id()
-            .unwrap_or(0)
-            .wrapping_add(flow.incoming_window())
-            .wrapping_sub(self.next_outgoing_id);
+        let in_flight = self
+            .next_outgoing_id
+            .wrapping_sub(flow.next_incoming_id().unwrap_or(INITIAL_NEXT_OUTGOING_ID));
+        self.remote_incoming_window =
+            if in_flight > flow.incoming_window() && in_flight <= i32::MAX as u32 {
+                // more transfers are in-flight than new window allows
+                0
+            } else {
+                flow.incoming_window().wrapping_sub(in_flight)
+            };
 
         log::trace!(
             "{}: Session received credit {:?}. window: {}, pending: {}",
-- 
2.43.0


From 76055eb1df93c1bd0f51e00ff54eef2453f0fffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:38 +0000
Subject: [PATCH 14/43] fix: do not panic if session is ended before remote
 sender link is confirmed

---
 src/session.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 32c039a..4c737fd 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -471,19 +471,24 @@ impl SessionInner {
         );
         let token = link.id;
 
+        let Some(entry @ Either::Left(SenderLinkState::OpeningRemote)) = self.links.get_mut(token)
+        else {
+            // link is detached or session is ended already
+            let err = self.error.clone();
+            link.get_mut()
+                .remote_detached(err.unwrap_or(AmqpProtocolError::LinkDetached(None)));
+            return SenderLink::new(link);
+        };
+        *entry = Either::Left(SenderLinkState::Established(EstablishedSenderLink::new(
+            link.clone(),
+        )));
+
         if let Some(source) = attach.source()
             && let Some(ref addr) = source.address
         {
             self.links_by_name.insert(addr.clone(), token);
         }
-
         self.remote_handles.insert(attach.handle(), token);
-        *self
-            .links
-            .get_mut(token)
-            .expect("new remote sender entry must exist") = Either::Left(
-            SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
-        );
 
         *response.handle_mut() = token as Handle;
         *response.max_message_size_mut() = link.max_message_size().map(u64::from);
-- 
2.43.0


From 3ae513a91f3ec2bf36e31a02751d87474030bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:51 +0000
Subject: [PATCH 15/43] fix: link names do not outlive links

name of a detached link, or of established link with other direction,
swallowed remote attach
---
 src/session.rs | 7 ++++---
 src/sndlink.rs | 4 ----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 4c737fd..b4d7575 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -876,6 +876,9 @@ impl SessionInner {
 
         if let Some(index) = self.links_by_name.get(name) {
             match self.links.get_mut(*index) {
+                // not a response to local attach
+                Some(Either::Left(SenderLinkState::Established(_)))
+                | Some(Either::Right(ReceiverLinkState::Established(_))) => return false,
                 Some(Either::Left(item)) => {
                     if item.is_opening() {
                         log::trace!(
@@ -977,9 +980,6 @@ impl SessionInner {
                         }));
                         let err = AmqpProtocolError::LinkDetached(detach.0.error.clone());
 
-                        // remove name
-                        self.links_by_name.remove(link.inner.name());
-
                         // drop pending transfers
                         let mut idx = 0;
                         let handle = link.inner.get_ref().id() as Handle;
@@ -1088,6 +1088,7 @@ impl SessionInner {
             if self.links.contains(idx) {
                 self.links.remove(idx);
             }
+            self.links_by_name.retain(|_, token| *token != idx);
             self.remote_handles.remove(&handle);
         }
         action
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 30537a7..905f0ec 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -230,10 +230,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn name(&self) -> &ByteString {
-        &self.name
-    }
-
     pub(crate) fn max_message_size(&self) -> Option<u32> {
         self.max_message_size
     }
-- 
2.43.0


From 6cec50ac80ab4e64bec741e99d7915d564ff80c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:23 +0000
Subject: [PATCH 16/43] fix: local handle is not reused until remote endpoint
 confirms detach

confirmation for a refused link detached the link that took over its handle
---
 src/session.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index b4d7575..c69e156 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -413,6 +413,7 @@ impl SessionInner {
         let id = self
             .links
             .insert(Either::Left(SenderLinkState::OpeningRemote));
+        self.remote_handles.insert(attach.handle(), id);
 
         let attach = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
@@ -590,8 +591,9 @@ impl SessionInner {
         }));
         self.post_frame(detach.into());
 
-        if self.links.contains(token) {
-            self.links.remove(token);
+        // handle is in use until remote endpoint confirms detach
+        if let Some(entry) = self.links.get_mut(token) {
+            *entry = Either::Left(SenderLinkState::Closing(None));
         }
     }
 
@@ -707,7 +709,10 @@ impl SessionInner {
         if let Some(Either::Right(link)) = self.links.get_mut(id as usize) {
             match link {
                 ReceiverLinkState::Opening(inner) => {
-                    if let Some((inner, source)) = inner.take() {
+                    let inner = inner.take();
+                    // handle is in use until remote endpoint confirms detach
+                    *link = ReceiverLinkState::Closing(None);
+                    if let Some((inner, source)) = inner {
                         let attach = Attach(Box::new(codec::AttachInner {
                             source,
                             max_message_size: None,
@@ -733,9 +738,6 @@ impl SessionInner {
                     }));
                     self.post_frame(detach.into());
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
                 }
                 ReceiverLinkState::Established(receiver_link) => {
                     let receiver_link = receiver_link.clone();
@@ -754,9 +756,6 @@ impl SessionInner {
                 }
                 ReceiverLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
                     log::error!(
                         "{}: Unexpected receiver link state: closing - {id}",
                         self.tag()
-- 
2.43.0


From 799c53931fc9c8be38e1be9aa18f137310ff1b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:25 +0000
Subject: [PATCH 17/43] fix: links can be detached before remote endpoint
 responds to attach

---
 src/session.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index c69e156..7f82bbf 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -526,6 +526,7 @@ impl SessionInner {
                     }));
 
                     *link = SenderLinkState::Closing(Some(tx));
+                    self.links_by_name.retain(|_, token| *token != id as usize);
                     self.post_frame(detach.clone().into());
                     self.sink
                         .get_control_queue()
@@ -747,6 +748,7 @@ impl SessionInner {
                         error,
                     }));
                     *link = ReceiverLinkState::Closing(Some(tx));
+                    self.links_by_name.retain(|_, token| *token != id as usize);
                     self.post_frame(detach.clone().into());
                     self.sink
                         .get_control_queue()
@@ -761,7 +763,15 @@ impl SessionInner {
                         self.tag()
                     );
                 }
-                ReceiverLinkState::OpeningLocal(_inner) => unimplemented!(),
+                ReceiverLinkState::OpeningLocal(_) => {
+                    let detach = Detach(Box::new(codec::DetachInner {
+                        handle: id,
+                        closed,
+                        error,
+                    }));
+                    *link = ReceiverLinkState::Closing(Some(tx));
+                    self.post_frame(detach.into());
+                }
             }
         } else {
             let _ = tx.send(Ok(()));
@@ -878,6 +888,11 @@ impl SessionInner {
                 // not a response to local attach
                 Some(Either::Left(SenderLinkState::Established(_)))
                 | Some(Either::Right(ReceiverLinkState::Established(_))) => return false,
+                // response for the link that is detached already
+                Some(Either::Left(SenderLinkState::Closing(_)))
+                | Some(Either::Right(ReceiverLinkState::Closing(_))) => {
+                    self.remote_handles.insert(attach.handle(), *index);
+                }
                 Some(Either::Left(item)) => {
                     if item.is_opening() {
                         log::trace!(
-- 
2.43.0


From cb414106916671c6534b4724832b9e79d6c58106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:27 +0000
Subject: [PATCH 18/43] fix: detach frame with unknown handle does not detach
 established links

---
 src/session.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index 7f82bbf..e8e4d8a 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -964,7 +964,12 @@ impl SessionInner {
         // get local link instance
         let idx = if let Some(idx) = self.remote_handles.get(&frame.handle()) {
             *idx
-        } else if self.links.contains(frame.handle() as usize) {
+        } else if match self.links.get(frame.handle() as usize) {
+            Some(Either::Left(link)) => link.is_opening(),
+            Some(Either::Right(link)) => link.is_opening(),
+            None => false,
+        } {
+            // local attach is refused
             frame.handle() as usize
         } else {
             // should not happen, error
-- 
2.43.0


From 1fc75672fa804f2f89a120bf5da039152d4766a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:43 +0000
Subject: [PATCH 19/43] fix: receiver link uses handle and initial delivery
 count of the remote endpoint

---
 src/rcvlink.rs | 8 ++++++++
 src/session.rs | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 884b932..b4cadbd 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -258,6 +258,14 @@ impl ReceiverLinkInner {
         &self.name
     }
 
+    /// Remote endpoint responded to local attach
+    pub(crate) fn attached(&mut self, frame: &Attach) {
+        self.remote_handle = frame.handle();
+        if let Some(count) = frame.initial_delivery_count() {
+            self.delivery_count = count;
+        }
+    }
+
     pub(crate) fn detached(&mut self) {
         // drop pending transfers
         self.queue.clear();
diff --git a/src/session.rs b/src/session.rs
index e8e4d8a..de94dda 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -933,6 +933,7 @@ impl SessionInner {
                         );
                         if let ReceiverLinkState::OpeningLocal(opt_item) = item {
                             if let Some((link, tx)) = opt_item.take() {
+                                link.get_mut().attached(attach);
                                 self.remote_handles.insert(attach.handle(), *index);
 
                                 *item = ReceiverLinkState::Established(
-- 
2.43.0


From 9dbcdd27048cc789fff27f32de5c0142cc6ccd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:44 +0000
Subject: [PATCH 20/43] fix: receiver link delivery count wraps, credit does
 not overflow

---
 src/rcvlink.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index b4cadbd..b2a78d0 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -298,7 +298,7 @@ impl ReceiverLinkInner {
     }
 
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
-        self.credit += credit;
+        self.credit = self.credit.saturating_add(credit);
         self.session
             .inner
             .get_mut()
@@ -364,7 +364,7 @@ impl ReceiverLinkInner {
                     Action::None
                 } else {
                     // received last partial transfer
-                    self.delivery_count += 1;
+                    self.delivery_count = self.delivery_count.wrapping_add(1);
                     let partial_body = self.partial_body.take();
                     if partial_body.is_some() && !self.queue.is_empty() {
                         self.queue.back_mut().unwrap().1.0.body =
@@ -431,7 +431,7 @@ impl ReceiverLinkInner {
                     Action::None
                 }
             } else if let Some(id) = transfer.delivery_id() {
-                self.delivery_count += 1;
+                self.delivery_count = self.delivery_count.wrapping_add(1);
                 let delivery = Delivery::new_rcv(
                     id,
                     self.handle,
-- 
2.43.0


From 8d60608fc89b2c6849d956e6d201f37af7e042cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:46 +0000
Subject: [PATCH 21/43] fix: pending transfers fail if sender link is closed
 locally

---
 src/session.rs | 12 ++++++++++++
 src/sndlink.rs |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index de94dda..f3dc83e 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -527,6 +527,18 @@ impl SessionInner {
 
                     *link = SenderLinkState::Closing(Some(tx));
                     self.links_by_name.retain(|_, token| *token != id as usize);
+
+                    // drop pending transfers
+                    let mut idx = 0;
+                    while idx < self.pending_transfers.len() {
+                        if self.pending_transfers[idx].link_handle == id {
+                            let tr = self.pending_transfers.remove(idx).unwrap();
+                            let _ = tr.tx.send(Err(AmqpProtocolError::LinkDetached(None)));
+                        } else {
+                            idx += 1;
+                        }
+                    }
+
                     self.post_frame(detach.clone().into());
                     self.sink
                         .get_control_queue()
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 905f0ec..ed12e4a 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -264,6 +264,11 @@ impl SenderLinkInner {
             self.on_close.notify_and_lock_readiness();
             self.on_credit.notify_and_lock_readiness();
 
+            // drop pending transfers
+            for tx in self.pending_transfers.drain(..) {
+                let _ = tx.send(Err(AmqpProtocolError::LinkDetached(None)));
+            }
+
             let (tx, rx) = oneshot::channel();
 
             self.session
-- 
2.43.0


From da6ca927f7a88643e591e25944a5471530b53720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 22/43] fix: do not send transfers over detached links

link could be detached after credit or window wait is completed
---
 src/session.rs | 7 +++++++
 src/sndlink.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index f3dc83e..a525d21 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1245,6 +1245,13 @@ impl SessionInner {
         format: Option<MessageFormat>,
     ) -> Result<DeliveryNumber, AmqpProtocolError> {
         loop {
+            // session or link could be closed while waiting for window
+            if let Some(ref err) = self.error {
+                return Err(err.clone());
+            } else if self.get_sender_link_by_local_handle(link_handle).is_none() {
+                return Err(AmqpProtocolError::LinkDetached(None));
+            }
+
             if self.remote_incoming_window == 0 {
                 log::trace!(
                     "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
diff --git a/src/sndlink.rs b/src/sndlink.rs
index ed12e4a..a3c8512 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -338,6 +338,13 @@ impl SenderLinkInner {
             let tag = self.get_tag(tag);
 
             loop {
+                // link could be closed while waiting for credit
+                if let Some(ref err) = self.error {
+                    return Err(err.clone());
+                } else if self.closed {
+                    return Err(AmqpProtocolError::Disconnected);
+                }
+
                 if self.link_credit == 0 || !self.pending_transfers.is_empty() {
                     log::trace!(
                         "{}: Sender link credit is 0({:?}), push to pending queue hnd:{}({} -> {}), queue size: {}",
-- 
2.43.0


From d0219888f33b416ded94c64271f66abc8e588f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 23/43] fix: session tracks next incoming id

---
 src/session.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index a525d21..b9fb3cd 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -836,6 +836,8 @@ impl SessionInner {
                     Ok(Action::None)
                 }
                 Frame::Transfer(transfer) => {
+                    self.next_incoming_id = self.next_incoming_id.wrapping_add(1);
+
                     let idx = if let Some(idx) = self.remote_handles.get(&transfer.handle()) {
                         *idx
                     } else {
@@ -869,8 +871,6 @@ impl SessionInner {
                                     )))
                                 }
                                 ReceiverLinkState::Established(link) => {
-                                    // self.outgoing_window -= 1;
-                                    let _ = self.next_incoming_id.wrapping_add(1);
                                     Ok(link.inner.get_mut().handle_transfer(transfer, &link.inner))
                                 }
                                 ReceiverLinkState::Closing(_) => Ok(Action::None),
-- 
2.43.0


From 20e6ff5b0b4f2eba9b1f98962414d1254a528975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:51 +0000
Subject: [PATCH 24/43] fix: disposition range is limited by number of
 unsettled deliveries

---
 src/session.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index b9fb3cd..d45dc0e 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1148,14 +1148,13 @@ impl SessionInner {
         };
 
         if let Some(to) = to {
-            for no in from..=to {
-                if let Some(delivery) = deliveries.get_mut(&no) {
-                    delivery.handle_disposition(disp);
-                } else {
-                    log::trace!(
-                        "{}: Unknown deliveryid: {no:?} disp: {disp:?}",
-                        self.sink.tag()
-                    );
+            // ids are serial numbers, range could be larger than number of deliveries
+            let count = to.wrapping_sub(from);
+            if count <= i32::MAX as u32 {
+                for (no, delivery) in deliveries.iter_mut() {
+                    if no.wrapping_sub(from) <= count {
+                        delivery.handle_disposition(disp);
+                    }
                 }
             }
         } else if let Some(delivery) = deliveries.get_mut(&from) {
-- 
2.43.0


From 5b3cc4dde27cb88b584eb82f448439943b76df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:52 +0000
Subject: [PATCH 25/43] fix: split transfers for small remote frame size leave
 room for frame header

---
 src/session.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index d45dc0e..8d9cf8e 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1290,7 +1290,8 @@ impl SessionInner {
         } else if max_frame_size == 0 {
             u32::MAX
         } else {
-            max_frame_size
+            // leave room for transfer frame
+            max_frame_size - max_frame_size / 2
         } as usize;
 
         // body is larger than allowed frame size, send body as a set of transfers
-- 
2.43.0


From c4726a7ffc1425b47f4d67ead6167c5025931b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:53 +0000
Subject: [PATCH 26/43] fix: unsettled deliveries of locally closed link fail
 after detach is confirmed

---
 src/session.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index 8d9cf8e..49a3e73 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1047,6 +1047,14 @@ impl SessionInner {
                         true
                     }
                     SenderLinkState::Closing(tx) => {
+                        // drop unsettled transfers
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        for delivery in self.unsettled_snd_deliveries.values_mut() {
+                            if delivery.handle() == idx as Handle {
+                                delivery.set_error(err.clone());
+                            }
+                        }
+
                         if let Some(tx) = tx.take() {
                             if let Some(err) = frame.0.error {
                                 let _ = tx.send(Err(AmqpProtocolError::LinkDetached(Some(err))));
-- 
2.43.0


From 009aeb41deea4f8478163ca717d11e8a0105f6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 27/43] fix: delivery settled by the peer is not settled again,
 wait() does not miss a disposition

---
 src/delivery.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index b733bf0..29f7710 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -88,11 +88,18 @@ impl Delivery {
 
     pub fn is_remote_settled(&self) -> bool {
         self.is_set(Flags::REMOTE_SETTLED)
+            || self
+                .session
+                .inner
+                .get_mut()
+                .unsettled_deliveries(self.is_set(Flags::SENDER))
+                .get(&self.id)
+                .is_some_and(|inner| inner.settled)
     }
 
     pub fn settle(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) {
+        if self.is_remote_settled() {
             return;
         }
 
@@ -117,7 +124,7 @@ impl Delivery {
 
     pub fn update_state(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) || self.is_set(Flags::LOCAL_SETTLED) {
+        if self.is_remote_settled() || self.is_set(Flags::LOCAL_SETTLED) {
             return;
         }
 
@@ -159,8 +166,14 @@ impl Delivery {
             .unsettled_deliveries(self.is_set(Flags::SENDER))
             .get_mut(&self.id)
         {
+            // disposition could be received already
+            if inner.settled {
+                self.set_flag(Flags::REMOTE_SETTLED);
+            }
             if let Some(st) = Self::check_inner(inner) {
                 return st;
+            } else if inner.settled {
+                return Ok(None);
             }
 
             let (tx, rx) = self.session.inner.get_ref().pool_notify.channel();
@@ -213,13 +226,14 @@ impl Delivery {
 
 impl Drop for Delivery {
     fn drop(&mut self) {
+        let settled = self.is_remote_settled() || self.is_set(Flags::LOCAL_SETTLED);
         let inner = self.session.inner.get_mut();
         let deliveries = inner.unsettled_deliveries(self.is_set(Flags::SENDER));
 
         if deliveries.contains_key(&self.id) {
             deliveries.remove(&self.id);
 
-            if !self.is_set(Flags::REMOTE_SETTLED) && !self.is_set(Flags::LOCAL_SETTLED) {
+            if !settled {
                 let err = Error::build()
                     .condition(ErrorCondition::Custom(Symbol(Str::from_static(
                         "Internal error",
-- 
2.43.0


From 1cd1d8901a37d5572b8e4254e51a979a9ccda112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:55 +0000
Subject: [PATCH 28/43] fix: control frames are applied in the order they are
 received

---
 src/dispatcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 2e757dd..3be5567 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -126,7 +126,7 @@ where
                 }
                 Poll::Ready(res) => res,
             };
-            let (frame, _) = futs.swap_remove(idx);
+            let (frame, _) = futs.remove(idx);
             let result = match res {
                 Ok(()) => self.handle_control_frame(&frame, None),
                 Err(e) => self.handle_control_frame(&frame, Some(e.into())),
-- 
2.43.0


From b07c32afbefde66c8ede2d94842968bdcfd38c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:57 +0000
Subject: [PATCH 29/43] fix: local sessions use channels up to channel-max of
 both endpoints

---
 src/connection.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 422ba77..e27b5a1 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -1,4 +1,4 @@
-use std::{fmt, future::Future, ops, pin::Pin, rc::Rc, task::Context, task::Poll};
+use std::{cmp, fmt, future::Future, ops, pin::Pin, rc::Rc, task::Context, task::Poll};
 
 use ntex_io::{IoConfig, IoRef};
 use ntex_service::cfg::Cfg;
@@ -69,7 +69,7 @@ impl Connection {
             control_queue: Rc::default(),
             error: None,
             on_close: Condition::new(),
-            channel_max: local_config.channel_max,
+            channel_max: cmp::min(local_config.channel_max, remote_config.channel_max),
             max_frame_size: remote_config.max_frame_size,
         })))
     }
@@ -587,7 +587,7 @@ async fn open_session(
         let entry = inner.sessions.vacant_entry();
         let token = entry.key();
 
-        if token >= inner.channel_max as usize {
+        if token > inner.channel_max as usize {
             log::trace!("{}: Too many channels: {:?}", inner.io.tag(), token);
             Err(AmqpProtocolError::TooManyChannels)
         } else {
-- 
2.43.0


From 74a54af10a916166688831efd5391a8b91fbb34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:25 +0000
Subject: [PATCH 30/43] fix: credit received before remote sender link is
 confirmed is not lost

---
 src/session.rs | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 49a3e73..18a8aa8 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -238,7 +238,8 @@ impl Session {
 #[derive(Debug)]
 enum SenderLinkState {
     Established(EstablishedSenderLink),
-    OpeningRemote,
+    /// Remotely opened link and the last flow received for it
+    OpeningRemote(Option<Flow>),
     Opening(Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>),
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
@@ -412,7 +413,7 @@ impl SessionInner {
     pub(crate) fn new_remote_sender(&mut self, attach: &Attach) -> (usize, Attach) {
         let id = self
             .links
-            .insert(Either::Left(SenderLinkState::OpeningRemote));
+            .insert(Either::Left(SenderLinkState::OpeningRemote(None)));
         self.remote_handles.insert(attach.handle(), id);
 
         let attach = Attach(Box::new(codec::AttachInner {
@@ -472,7 +473,8 @@ impl SessionInner {
         );
         let token = link.id;
 
-        let Some(entry @ Either::Left(SenderLinkState::OpeningRemote)) = self.links.get_mut(token)
+        let Some(entry @ Either::Left(SenderLinkState::OpeningRemote(_))) =
+            self.links.get_mut(token)
         else {
             // link is detached or session is ended already
             let err = self.error.clone();
@@ -480,9 +482,12 @@ impl SessionInner {
                 .remote_detached(err.unwrap_or(AmqpProtocolError::LinkDetached(None)));
             return SenderLink::new(link);
         };
-        *entry = Either::Left(SenderLinkState::Established(EstablishedSenderLink::new(
-            link.clone(),
-        )));
+        let state = mem::replace(
+            entry,
+            Either::Left(SenderLinkState::Established(EstablishedSenderLink::new(
+                link.clone(),
+            ))),
+        );
 
         if let Some(source) = attach.source()
             && let Some(ref addr) = source.address
@@ -495,6 +500,11 @@ impl SessionInner {
         *response.max_message_size_mut() = link.max_message_size().map(u64::from);
 
         self.post_frame(response.into());
+
+        // credit is received before link is confirmed
+        if let Either::Left(SenderLinkState::OpeningRemote(Some(flow))) = state {
+            link.get_mut().apply_flow(&flow);
+        }
         SenderLink::new(link)
     }
 
@@ -546,7 +556,7 @@ impl SessionInner {
                             crate::ControlFrameKind::LocalDetachSender(detach, sender_link),
                         ));
                 }
-                SenderLinkState::OpeningRemote => {
+                SenderLinkState::OpeningRemote(_) => {
                     let _ = tx.send(Ok(()));
                     log::error!(
                         "{}: Unexpected sender link state: opening remote - {id}",
@@ -823,10 +833,17 @@ impl SessionInner {
                         .and_then(|h| self.remote_handles.get(&h).copied())
                         .and_then(|h| self.links.get_mut(h))
                     {
-                        if let SenderLinkState::Established(link) = link {
-                            return Ok(Action::Flow((*link).clone(), flow));
+                        match link {
+                            SenderLinkState::Established(link) => {
+                                return Ok(Action::Flow((*link).clone(), flow));
+                            }
+                            SenderLinkState::OpeningRemote(pending)
+                                if flow.link_credit().is_some() =>
+                            {
+                                *pending = Some(flow.clone());
+                            }
+                            _ => log::warn!("{}: Received flow frame", self.tag()),
                         }
-                        log::warn!("{}: Received flow frame", self.tag());
                     }
                     self.handle_flow(&flow, None);
                     Ok(Action::None)
@@ -1039,7 +1056,7 @@ impl SessionInner {
                         action = Action::DetachSender(link.clone(), frame);
                         true
                     }
-                    SenderLinkState::OpeningRemote => {
+                    SenderLinkState::OpeningRemote(_) => {
                         log::warn!(
                             "{}: Detach frame received for unconfirmed sender link: {frame:?}",
                             self.tag()
-- 
2.43.0


From 96445fbfc10893e7406ae6a5ced921a65977eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:20 +0000
Subject: [PATCH 31/43] fix: keep-alive for remote idle timeouts below two
 seconds

---
 src/client/connection.rs |  4 ++--
 src/lib.rs               | 12 ++++--------
 src/server/handshake.rs  |  8 ++++----
 src/server/service.rs    |  2 +-
 4 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 7d8ea6d..5c66cd9 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -66,7 +66,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
@@ -84,7 +84,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, S::Error>::Ok(()))),
             Pipeline::new(service.into_service()),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
diff --git a/src/lib.rs b/src/lib.rs
index c0489ef..ac17aa7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,7 +25,7 @@ use ntex_amqp_codec::protocol::{Handle, Milliseconds, Open, OpenInner, Symbols};
 use ntex_amqp_codec::types::Symbol;
 use ntex_bytes::ByteString;
 use ntex_service::cfg::{CfgContext, Configuration as SvcConfiguration};
-use ntex_util::time::Seconds;
+use ntex_util::time::{Millis, Seconds};
 use uuid::Uuid;
 
 mod cell;
@@ -245,12 +245,8 @@ impl RemoteServiceConfig {
         }
     }
 
-    #[allow(clippy::cast_sign_loss, clippy::cast_precision_loss)]
-    pub(crate) fn timeout_remote_secs(&self) -> Seconds {
-        if self.idle_time_out > 0 {
-            Seconds::checked_new(((self.idle_time_out as f32) * 0.75 / 1000.0) as usize)
-        } else {
-            Seconds::ZERO
-        }
+    /// Three quarters of the remote idle timeout, zero if it is not set
+    pub(crate) fn timeout_remote(&self) -> Millis {
+        Millis(self.idle_time_out - self.idle_time_out / 4)
     }
 }
diff --git a/src/server/handshake.rs b/src/server/handshake.rs
index a5ed8c5..bea486a 100644
--- a/src/server/handshake.rs
+++ b/src/server/handshake.rs
@@ -1,6 +1,6 @@
 use ntex_io::IoBoxed;
 use ntex_service::cfg::Cfg;
-use ntex_util::time::Seconds;
+use ntex_util::time::Millis;
 
 use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame, protocol::Open};
 use crate::{AmqpServiceConfig, RemoteServiceConfig, connection::Connection};
@@ -138,7 +138,7 @@ impl HandshakeAmqpOpened {
             st,
             sink: self.sink,
             state: self.state,
-            idle_timeout: self.remote_config.timeout_remote_secs(),
+            idle_timeout: self.remote_config.timeout_remote(),
         }
     }
 }
@@ -148,11 +148,11 @@ pub struct HandshakeAck<St> {
     st: St,
     sink: Connection,
     state: IoBoxed,
-    idle_timeout: Seconds,
+    idle_timeout: Millis,
 }
 
 impl<St> HandshakeAck<St> {
-    pub(crate) fn into_inner(self) -> (St, Connection, Seconds, IoBoxed) {
+    pub(crate) fn into_inner(self) -> (St, Connection, Millis, IoBoxed) {
         (self.st, self.sink, self.idle_timeout, self.state)
     }
 }
diff --git a/src/server/service.rs b/src/server/service.rs
index e06a02e..ec024b6 100644
--- a/src/server/service.rs
+++ b/src/server/service.rs
@@ -307,7 +307,7 @@ where
                 .await
                 .map_err(HandshakeError::from)?;
 
-            Ok((io, codec, sink, State::new(st), Millis::from(idle_timeout)))
+            Ok((io, codec, sink, State::new(st), idle_timeout))
         }
         ProtocolId::AmqpTls => Err(ServerError::Handshake(HandshakeError::from(
             ProtocolIdError::Unexpected {
-- 
2.43.0


From b4f79695673e858981e137ceb320ae02ca5674ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:22 +0000
Subject: [PATCH 32/43] fix: link credit is not consumed while a transfer waits
 for session window

---
 src/session.rs | 31 ++++++++++++++++++++++---------
 src/sndlink.rs |  9 +++++++++
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 18a8aa8..52de803 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1259,6 +1259,27 @@ impl SessionInner {
         self.post_frame(flow.into());
     }
 
+    /// Remote window is closed, register transfer of established sender link
+    pub(crate) fn wait_window(
+        &mut self,
+        link_handle: Handle,
+    ) -> Option<pool::Receiver<Result<(), AmqpProtocolError>>> {
+        if self.remote_incoming_window == 0
+            && self.get_sender_link_by_local_handle(link_handle).is_some()
+        {
+            log::trace!(
+                "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
+                self.sink.tag()
+            );
+            let (tx, rx) = self.pool_credit.channel();
+            self.pending_transfers
+                .push_back(PendingTransfer { tx, link_handle });
+            Some(rx)
+        } else {
+            None
+        }
+    }
+
     #[allow(clippy::too_many_lines)]
     pub(crate) async fn send_transfer(
         &mut self,
@@ -1276,15 +1297,7 @@ impl SessionInner {
                 return Err(AmqpProtocolError::LinkDetached(None));
             }
 
-            if self.remote_incoming_window == 0 {
-                log::trace!(
-                    "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
-                    self.sink.tag()
-                );
-                let (tx, rx) = self.pool_credit.channel();
-                self.pending_transfers
-                    .push_back(PendingTransfer { tx, link_handle });
-
+            if let Some(rx) = self.wait_window(link_handle) {
                 rx.await
                     .map_err(|_| AmqpProtocolError::ConnectionDropped)
                     .and_then(|v| v)?;
diff --git a/src/sndlink.rs b/src/sndlink.rs
index a3c8512..931a8b4 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -362,6 +362,15 @@ impl SenderLinkInner {
                         .and_then(|v| v)?;
                     continue;
                 }
+
+                // credit is not consumed until session window is available
+                let waiter = self.session.inner.get_mut().wait_window(self.id as Handle);
+                if let Some(rx) = waiter {
+                    rx.await
+                        .map_err(|_| AmqpProtocolError::ConnectionDropped)
+                        .and_then(|v| v)?;
+                    continue;
+                }
                 break;
             }
 
-- 
2.43.0


From 5c9d15f3b483beb4c02ada4e25e34c2a815e7acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:24 +0000
Subject: [PATCH 33/43] fix: response to flow with echo carries next incoming
 id

---
 src/session.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 52de803..8299561 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1217,11 +1217,7 @@ impl SessionInner {
 
         if flow.echo() {
             let flow = Flow(Box::new(codec::FlowInner {
-                next_incoming_id: if self.flags.contains(Flags::LOCAL) {
-                    Some(self.next_incoming_id)
-                } else {
-                    None
-                },
+                next_incoming_id: Some(self.next_incoming_id),
                 incoming_window: u32::MAX,
                 next_outgoing_id: self.next_outgoing_id,
                 outgoing_window: self.remote_incoming_window,
-- 
2.43.0


From d6a8e1f516b8a321fbbd3dd197a1de4417919bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:13 +0000
Subject: [PATCH 34/43] fix: attaching a link to ended session fails

---
 src/session.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index 8299561..ef3993a 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -443,6 +443,12 @@ impl SessionInner {
     ) -> oneshot::Receiver<Result<Cell<SenderLinkInner>, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
 
+        // session is ended already
+        if let Some(ref err) = self.error {
+            let _ = tx.send(Err(err.clone()));
+            return rx;
+        }
+
         let entry = self.links.vacant_entry();
         let token = entry.key();
         entry.insert(Either::Left(SenderLinkState::Opening(Some(tx))));
@@ -682,6 +688,12 @@ impl SessionInner {
     ) -> oneshot::Receiver<Result<ReceiverLink, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
 
+        // session is ended already
+        if let Some(ref err) = self.error {
+            let _ = tx.send(Err(err.clone()));
+            return rx;
+        }
+
         let entry = self.links.vacant_entry();
         let token = entry.key();
 
-- 
2.43.0


From 7571be61733677acc171fa9a4f3655739071465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:15 +0000
Subject: [PATCH 35/43] fix: zero max message size of remote link is not a
 limit

---
 src/delivery.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/delivery.rs b/src/delivery.rs
index 29f7710..415a1a8 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -347,7 +347,9 @@ impl TransferBuilder {
         } else if inner.closed {
             Err(AmqpProtocolError::Disconnected)
         } else {
+            // zero means that size is not limited
             if let Some(limit) = inner.max_message_size
+                && limit != 0
                 && self.data.len() > limit as usize
             {
                 return Err(AmqpProtocolError::BodyTooLarge);
-- 
2.43.0


From 03524a2f45b7d26b13846443751416802265c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:51 +0000
Subject: [PATCH 36/43] fix: refused remote sender link is answered with role
 sender

---
 src/session.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index ef3993a..897e5ad 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -598,14 +598,14 @@ impl SessionInner {
         let attach = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
             handle: token as Handle,
-            role: attach.0.role,
+            role: Role::Sender,
             snd_settle_mode: SenderSettleMode::Unsettled,
             rcv_settle_mode: ReceiverSettleMode::First,
             source: None,
             target: None,
             unsettled: None,
             incomplete_unsettled: false,
-            initial_delivery_count: None,
+            initial_delivery_count: Some(attach.initial_delivery_count().unwrap_or(0)),
             max_message_size: None,
             offered_capabilities: None,
             desired_capabilities: None,
-- 
2.43.0


From f2ba89f664387f06a53b0b8b731ee9e77b6a6caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:18 +0000
Subject: [PATCH 37/43] fix: detaching link via session wakes its pending
 operations

---
 src/rcvlink.rs | 4 +++-
 src/sndlink.rs | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index b2a78d0..c910895 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -478,7 +478,9 @@ impl std::ops::Deref for EstablishedReceiverLink {
 
 impl Drop for EstablishedReceiverLink {
     fn drop(&mut self) {
-        self.0.inner.get_mut().closed = true;
+        let inner = self.0.inner.get_mut();
+        inner.closed = true;
+        inner.wake();
     }
 }
 
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 931a8b4..aa9ed2a 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -429,6 +429,11 @@ impl Drop for EstablishedSenderLink {
             inner.closed = true;
             inner.on_close.notify_and_lock_readiness();
             inner.on_credit.notify_and_lock_readiness();
+
+            // drop pending transfers
+            for tx in inner.pending_transfers.drain(..) {
+                let _ = tx.send(Err(AmqpProtocolError::LinkDetached(None)));
+            }
         }
     }
 }
-- 
2.43.0


From 2ac19564040f08bc1e8b95e7d6b81daa9b11a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:11 +0000
Subject: [PATCH 38/43] fix: unsettled received deliveries of locally closed
 link fail after detach is confirmed

---
 src/session.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index 897e5ad..0644707 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1137,6 +1137,14 @@ impl SessionInner {
                         true
                     }
                     ReceiverLinkState::Closing(tx) => {
+                        // drop unsettled transfers
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        for delivery in self.unsettled_rcv_deliveries.values_mut() {
+                            if delivery.handle() == idx as Handle {
+                                delivery.set_error(err.clone());
+                            }
+                        }
+
                         // detach confirmation
                         if let Some(tx) = tx.take() {
                             if let Some(err) = frame.0.error {
-- 
2.43.0


From fa69cd6c7d4763dff8be83a5d3d60b4ab4b714d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:24 +0000
Subject: [PATCH 39/43] fix: sasl outcome after challenge does not wait for
 another sasl frame

---
 src/server/sasl.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index b193aa3..7478882 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -211,10 +211,6 @@ impl SaslResponse {
             .send(frame, &codec)
             .await
             .map_err(HandshakeError::from)?;
-        state
-            .recv(&codec)
-            .await?
-            .ok_or(HandshakeError::Disconnected(None))?;
 
         Ok(SaslSuccess {
             state,
-- 
2.43.0


From f1f6af410ce314f7d3eabde2bfcd7806d8b305f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:21 +0000
Subject: [PATCH 40/43] fix: nothing is sent over ended session

---
 src/session.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index 0644707..334640b 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1309,6 +1309,8 @@ impl SessionInner {
             // session or link could be closed while waiting for window
             if let Some(ref err) = self.error {
                 return Err(err.clone());
+            } else if self.flags.contains(Flags::ENDING) {
+                return Err(AmqpProtocolError::SessionEnded(None));
             } else if self.get_sender_link_by_local_handle(link_handle).is_none() {
                 return Err(AmqpProtocolError::LinkDetached(None));
             }
@@ -1434,6 +1436,9 @@ impl SessionInner {
     }
 
     pub(crate) fn post_frame(&mut self, frame: Frame) {
-        self.sink.post_frame(AmqpFrame::new(self.id(), frame));
+        // nothing is sent after end frame
+        if !self.flags.contains(Flags::ENDING) && !self.flags.contains(Flags::ENDED) {
+            self.sink.post_frame(AmqpFrame::new(self.id(), frame));
+        }
     }
 }
-- 
2.43.0


From c64144e501cfc33f22547ba0ccbf8484cade8a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:23 +0000
Subject: [PATCH 41/43] fix: do not grant credit over detached link

---
 src/rcvlink.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index c910895..188cbf1 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -298,6 +298,10 @@ impl ReceiverLinkInner {
     }
 
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
+        // link is detached already
+        if self.closed {
+            return;
+        }
         self.credit = self.credit.saturating_add(credit);
         self.session
             .inner
-- 
2.43.0


From cfea86966bf026c285ffdbda4feb0e1144bca181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:08 +0000
Subject: [PATCH 42/43] fix: answer detach of link that is not confirmed yet

---
 src/rcvlink.rs |  4 +++
 src/session.rs | 70 +++++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 68 insertions(+), 6 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 188cbf1..8439eb4 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -85,6 +85,10 @@ impl ReceiverLink {
 
     pub(crate) fn confirm_receiver_link(&self, response: Attach) {
         let inner = self.inner.get_mut();
+        // link is detached already
+        if inner.closed {
+            return;
+        }
         let size = self.inner.get_ref().max_message_size;
         let size = if size != 0 { Some(size) } else { None };
         inner
diff --git a/src/session.rs b/src/session.rs
index 334640b..365fa0d 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -240,6 +240,8 @@ enum SenderLinkState {
     Established(EstablishedSenderLink),
     /// Remotely opened link and the last flow received for it
     OpeningRemote(Option<Flow>),
+    /// Remotely opened link, it is detached by remote endpoint before it is confirmed
+    DetachedRemote,
     Opening(Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>),
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
@@ -479,6 +481,23 @@ impl SessionInner {
         );
         let token = link.id;
 
+        // remote endpoint detached link already
+        if let Some(Either::Left(SenderLinkState::DetachedRemote)) = self.links.get(token) {
+            self.links.remove(token);
+            link.get_mut()
+                .remote_detached(AmqpProtocolError::LinkDetached(None));
+
+            *response.handle_mut() = token as Handle;
+            self.post_frame(response.into());
+            let detach = Detach(Box::new(codec::DetachInner {
+                handle: token as Handle,
+                closed: true,
+                error: None,
+            }));
+            self.post_frame(detach.into());
+            return SenderLink::new(link);
+        }
+
         let Some(entry @ Either::Left(SenderLinkState::OpeningRemote(_))) =
             self.links.get_mut(token)
         else {
@@ -562,7 +581,7 @@ impl SessionInner {
                             crate::ControlFrameKind::LocalDetachSender(detach, sender_link),
                         ));
                 }
-                SenderLinkState::OpeningRemote(_) => {
+                SenderLinkState::OpeningRemote(_) | SenderLinkState::DetachedRemote => {
                     let _ = tx.send(Ok(()));
                     log::error!(
                         "{}: Unexpected sender link state: opening remote - {id}",
@@ -620,8 +639,11 @@ impl SessionInner {
         }));
         self.post_frame(detach.into());
 
-        // handle is in use until remote endpoint confirms detach
-        if let Some(entry) = self.links.get_mut(token) {
+        if let Some(Either::Left(SenderLinkState::DetachedRemote)) = self.links.get(token) {
+            // remote endpoint detached link already
+            self.links.remove(token);
+        } else if let Some(entry) = self.links.get_mut(token) {
+            // handle is in use until remote endpoint confirms detach
             *entry = Either::Left(SenderLinkState::Closing(None));
         }
     }
@@ -1071,10 +1093,14 @@ impl SessionInner {
                     SenderLinkState::OpeningRemote(_) => {
                         log::warn!(
                             "{}: Detach frame received for unconfirmed sender link: {frame:?}",
-                            self.tag()
+                            self.sink.tag()
                         );
-                        true
+                        // detach is confirmed together with attach, handle is in use until then
+                        *link = SenderLinkState::DetachedRemote;
+                        self.remote_handles.remove(&handle);
+                        false
                     }
+                    SenderLinkState::DetachedRemote => false,
                     SenderLinkState::Closing(tx) => {
                         // drop unsettled transfers
                         let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
@@ -1095,7 +1121,39 @@ impl SessionInner {
                     }
                 },
                 Either::Right(link) => match link {
-                    ReceiverLinkState::Opening(_) => false,
+                    ReceiverLinkState::Opening(item) => {
+                        // link is not confirmed yet
+                        if let Some((inner, source)) = item.take() {
+                            let id = inner.get_ref().id();
+                            let attach = Attach(Box::new(codec::AttachInner {
+                                source,
+                                max_message_size: None,
+                                name: inner.get_ref().name().clone(),
+                                handle: id,
+                                role: Role::Receiver,
+                                snd_settle_mode: SenderSettleMode::Mixed,
+                                rcv_settle_mode: ReceiverSettleMode::First,
+                                target: None,
+                                unsettled: None,
+                                incomplete_unsettled: false,
+                                initial_delivery_count: Some(0),
+                                offered_capabilities: None,
+                                desired_capabilities: None,
+                                properties: None,
+                            }));
+                            self.sink
+                                .post_frame(AmqpFrame::new(self.id as u16, attach.into()));
+                            let detach = Detach(Box::new(codec::DetachInner {
+                                handle: id,
+                                closed: true,
+                                error: None,
+                            }));
+                            self.sink
+                                .post_frame(AmqpFrame::new(self.id as u16, detach.into()));
+                            ReceiverLink::new(inner).remote_detached(frame.0.error.take());
+                        }
+                        true
+                    }
                     ReceiverLinkState::OpeningLocal(item) => {
                         if let Some((inner, tx)) = item.take() {
                             inner.get_mut().detached();
-- 
2.43.0


From 86913458514c361d253852be3a0c9f7dcbdb8b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:04 +0000
Subject: [PATCH 43/43] fix: client requires the sasl mechanisms before it
 sends credentials

---
 src/client/connector.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/connector.rs b/src/client/connector.rs
index ae0525f..80228ee 100644
--- a/src/client/connector.rs
+++ b/src/client/connector.rs
@@ -192,12 +192,16 @@ async fn connect_sasl_inner(
     let codec = AmqpCodec::<SaslFrame>::new();
 
     // processing sasl-mechanisms
-    let _ = io
+    let sasl_frame = io
         .recv(&codec)
         .await
         .map_err(ConnectError::from)?
         .ok_or(ConnectError::Disconnected)?;
 
+    if !matches!(sasl_frame.body, SaslFrameBody::SaslMechanisms(_)) {
+        return Err(Error::from(ConnectError::Disconnected));
+    }
+
     let initial_response =
         SaslInit::prepare_response(&auth.authz_id, &auth.authn_id, &auth.password);
 
-- 
2.43.0

