From 22b6b1ff95af3501657d53c9e920ac602cac3dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:33 +0000
Subject: [PATCH 01/18] fix: reject frames whose declared size is smaller than
 the frame header

A size below 4 underflowed (panic, or an endless wait for data without
overflow checks); AMQP 1.0 requires at least the 8 byte header.
---
 src/io.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index aeeaa70..d57513b 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 use bytes::{BigEndian, BufMut, ByteOrder, BytesMut};
 use tokio_io::codec::{Decoder, Encoder};
 
-use super::errors::{AmqpCodecError, ProtocolIdError};
+use super::errors::{AmqpCodecError, AmqpParseError, ProtocolIdError};
 use super::framing::HEADER_LEN;
 use crate::codec::{Decode, Encode};
 use crate::protocol::ProtocolId;
@@ -50,6 +50,9 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                         return Ok(None);
                     }
                     let size = BigEndian::read_u32(src.as_ref()) as usize;
+                    if size < HEADER_LEN {
+                        return Err(AmqpParseError::InvalidSize.into());
+                    }
 
                     // todo: max frame size check
                     self.state = DecodeState::Frame(size - 4);
-- 
2.43.0


From 58d5bc3e25a57120c7ce1affe23a2e8b4964ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:34 +0000
Subject: [PATCH 02/18] fix: return to the frame header state when a frame
 fails to decode

The frame's bytes were consumed but the decoder kept waiting for a frame
of the same size, so every following frame was misread.
---
 src/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index d57513b..b70cb0b 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -72,12 +72,12 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                     }
 
                     let frame_buf = src.split_to(size);
+                    self.state = DecodeState::FrameHeader;
                     let (remainder, frame) = T::decode(frame_buf.as_ref())?;
                     if !remainder.is_empty() {
                         // todo: could it really happen?
                         return Err(AmqpCodecError::UnparsedBytesLeft);
                     }
-                    self.state = DecodeState::FrameHeader;
                     return Ok(Some(frame));
                 }
             }
-- 
2.43.0


From 3c04741e9a06159a483e263c64e18e4cbc411f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:35 +0000
Subject: [PATCH 03/18] fix: reject compound sizes too small to hold the
 element count

The size underflowed: a panic, or with overflow checks off a bogus size.
---
 src/codec/decode.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index ac419d8..7ea3411 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -531,6 +531,9 @@ pub(crate) fn decode_map_header(
 
 fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 2);
+    if input[0] < 1 {
+        return Err(AmqpParseError::InvalidSize);
+    }
     let size = input[0] - 1; // -1 for 1 byte count
     let count = input[1];
     Ok((
@@ -544,7 +547,11 @@ fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseEr
 
 fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    let size = BigEndian::read_u32(input);
+    if size < 4 {
+        return Err(AmqpParseError::InvalidSize);
+    }
+    let size = size - 4; // -4 for 4 byte count
     let count = BigEndian::read_u32(&input[4..]);
     Ok((&input[8..], CompoundHeader { size, count }))
 }
-- 
2.43.0


From eddf848109eff4cfd3e6d2137d0bbf85e2302b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:36 +0000
Subject: [PATCH 04/18] fix: check that a map's declared size is available
 before slicing it

---
 src/codec/decode.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 7ea3411..04dde8a 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -253,7 +253,9 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
-        let mut map_input = &input[..header.size as usize];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let mut map_input = &input[..size];
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
             HashMap::with_capacity_and_hasher(count as usize, Default::default());
@@ -264,7 +266,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
             map.insert(key, value); // todo: ensure None returned?
         }
         // todo: validate map_input is empty
-        Ok((&input[header.size as usize..], map))
+        Ok((&input[size..], map))
     }
 }
 
@@ -286,7 +288,9 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
 impl DecodeFormatted for VecVariantMap {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
-        let mut map_input = &input[..header.size as usize];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let mut map_input = &input[..size];
         let count = header.count / 2;
         let mut map = Vec::with_capacity(count as usize);
         for _ in 0..count {
@@ -296,7 +300,7 @@ impl DecodeFormatted for VecVariantMap {
             map.push((key, value)); // todo: ensure None returned?
         }
         // todo: validate map_input is empty
-        Ok((&input[header.size as usize..], VecVariantMap(map)))
+        Ok((&input[size..], VecVariantMap(map)))
     }
 }
 
-- 
2.43.0


From f8bef4445e948164b5139cd223c8a4dde3341d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 05/18] fix: decode lists and arrays within their declared size

Elements were read past the declared end, the following value was looked
for after the last element instead of after the declared size, and an
array header without an item constructor panicked. Maps and composites
already honour the declared size.
---
 src/codec/decode.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 04dde8a..cf3efd4 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -273,15 +273,18 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_array_header(input, fmt)?;
-        let item_fmt = input[0]; // todo: support descriptor
-        let mut input = &input[1..];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (array_input, remainder) = input.split_at(size);
+        let (mut array_input, item_fmt) = codec::decode_format_code(array_input)?; // todo: support descriptor
         let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            let (new_input, decoded) = T::decode_with_format(input, item_fmt)?;
+            let (new_input, decoded) = T::decode_with_format(array_input, item_fmt)?;
             result.push(decoded);
-            input = new_input;
+            array_input = new_input;
         }
-        Ok((input, result))
+        // todo: validate array_input is empty
+        Ok((remainder, result))
     }
 }
 
@@ -321,14 +324,18 @@ impl<T: ArrayDecode + DecodeFormatted> DecodeFormatted for Multiple<T> {
 
 impl DecodeFormatted for List {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
-        let (mut input, header) = decode_list_header(input, fmt)?;
+        let (input, header) = decode_list_header(input, fmt)?;
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (mut list_input, remainder) = input.split_at(size);
         let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            let (new_input, decoded) = Variant::decode(input)?;
+            let (new_input, decoded) = Variant::decode(list_input)?;
             result.push(decoded);
-            input = new_input;
+            list_input = new_input;
         }
-        Ok((input, List(result)))
+        // todo: validate list_input is empty
+        Ok((remainder, List(result)))
     }
 }
 
-- 
2.43.0


From 110aab2fe28fd828c27dd79e4e42b1a93f4700bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:38 +0000
Subject: [PATCH 06/18] fix: do not allocate memory for a declared element
 count up front

A few bytes declaring 2^32 elements made the decoder abort on allocation.
---
 src/codec/decode.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index cf3efd4..8af1497 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -258,7 +258,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         let mut map_input = &input[..size];
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
-            HashMap::with_capacity_and_hasher(count as usize, Default::default());
+            HashMap::with_capacity_and_hasher(initial_capacity(count), Default::default());
         for _ in 0..count {
             let (input1, key) = K::decode(map_input)?;
             let (input2, value) = V::decode(input1)?;
@@ -277,7 +277,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
         decode_check_len!(input, size);
         let (array_input, remainder) = input.split_at(size);
         let (mut array_input, item_fmt) = codec::decode_format_code(array_input)?; // todo: support descriptor
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(initial_capacity(header.count));
         for _ in 0..header.count {
             let (new_input, decoded) = T::decode_with_format(array_input, item_fmt)?;
             result.push(decoded);
@@ -295,7 +295,7 @@ impl DecodeFormatted for VecVariantMap {
         decode_check_len!(input, size);
         let mut map_input = &input[..size];
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(initial_capacity(count));
         for _ in 0..count {
             let (input1, key) = Str::decode(map_input)?;
             let (input2, value) = Variant::decode(input1)?;
@@ -328,7 +328,7 @@ impl DecodeFormatted for List {
         let size = header.size as usize;
         decode_check_len!(input, size);
         let (mut list_input, remainder) = input.split_at(size);
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<Variant> = Vec::with_capacity(initial_capacity(header.count));
         for _ in 0..header.count {
             let (new_input, decoded) = Variant::decode(list_input)?;
             result.push(decoded);
@@ -567,6 +567,13 @@ fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseE
     Ok((&input[8..], CompoundHeader { size, count }))
 }
 
+/// Number of items to allocate room for up front. The count comes from the peer and is not
+/// trustworthy until the items have actually been decoded.
+fn initial_capacity(count: u32) -> usize {
+    const MAX_INITIAL_CAPACITY: usize = 32;
+    std::cmp::min(count as usize, MAX_INITIAL_CAPACITY)
+}
+
 fn datetime_from_millis(millis: i64) -> DateTime<Utc> {
     let seconds = millis / 1000;
     if seconds < 0 {
-- 
2.43.0


From 4e14a7585af6fe823091c6c8b741fe6abf3a124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:40 +0000
Subject: [PATCH 07/18] fix: decode timestamps before 1970 and out of range
 correctly

The last second before the epoch lost its sign, whole seconds before the
epoch and counts outside chrono's range panicked.
---
 src/codec/decode.rs | 24 +++++++++++-------------
 src/errors.rs       |  2 ++
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 8af1497..e9309f2 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -170,7 +170,9 @@ impl DecodeFormatted for char {
 impl DecodeFormatted for DateTime<Utc> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         validate_code!(fmt, codec::FORMATCODE_TIMESTAMP);
-        be_read!(input, read_i64, 8).map(|(i, o)| (i, datetime_from_millis(o)))
+        let result: Result<(&[u8], i64), AmqpParseError> = be_read!(input, read_i64, 8);
+        let (i, o) = result?;
+        Ok((i, datetime_from_millis(o)?))
     }
 }
 
@@ -574,18 +576,14 @@ fn initial_capacity(count: u32) -> usize {
     std::cmp::min(count as usize, MAX_INITIAL_CAPACITY)
 }
 
-fn datetime_from_millis(millis: i64) -> DateTime<Utc> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds - 1, nanoseconds)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds, nanoseconds)
-    }
+fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
+    // In order to handle time before 1970 correctly, the seconds are rounded down and the
+    // (never negative) milliseconds are added back through the nanoseconds field
+    let seconds = millis.div_euclid(1000);
+    let nanoseconds = (millis.rem_euclid(1000) * 1_000_000) as u32;
+    Utc.timestamp_opt(seconds, nanoseconds)
+        .single()
+        .ok_or(AmqpParseError::InvalidTimestamp(millis))
 }
 
 #[cfg(test)]
diff --git a/src/errors.rs b/src/errors.rs
index 1d7ff3b..be59c11 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -13,6 +13,8 @@ pub enum AmqpParseError {
     InvalidFormatCode(u8),
     #[display(fmt = "Invalid value converting to char: {}", "_0")]
     InvalidChar(u32),
+    #[display(fmt = "Timestamp out of range: {}", "_0")]
+    InvalidTimestamp(i64),
     #[display(fmt = "Unexpected descriptor: '{:?}'", "_0")]
     InvalidDescriptor(Descriptor),
     #[display(fmt = "Unexpected frame type: '{:?}'", "_0")]
-- 
2.43.0


From d06d615d038ac7a56edf7049e0caa3d9aa336c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 08/18] fix: implement hashing of variant maps

A map used as a map key, also when it came from the wire, panicked.
---
 src/types/variant.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/types/variant.rs b/src/types/variant.rs
index 6fd0f29..673ef56 100644
--- a/src/types/variant.rs
+++ b/src/types/variant.rs
@@ -1,4 +1,5 @@
 use hashbrown::HashMap;
+use std::collections::hash_map::DefaultHasher;
 use std::hash::{Hash, Hasher};
 
 use bytes::Bytes;
@@ -136,8 +137,16 @@ impl VariantMap {
 }
 
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // equality does not depend on the order of entries, neither must the hash
+        let mut entries: u64 = 0;
+        for entry in &self.map {
+            let mut hasher = DefaultHasher::new();
+            entry.hash(&mut hasher);
+            entries = entries.wrapping_add(hasher.finish());
+        }
+        self.map.len().hash(state);
+        entries.hash(state);
     }
 }
 
-- 
2.43.0


From b4762bb038225c151ef0a8e3698a2eaf63f4e7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 09/18] fix: encode lists with list format codes

Lists were written with array format codes, which no decoder (including
this one) reads as a list.
---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index 76be9ac..b15d747 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -611,11 +611,11 @@ impl Encode for List {
     fn encode(&self, buf: &mut BytesMut) {
         let size = list_encoded_size(self);
         if size + 1 > u8::MAX as usize {
-            buf.put_u8(codec::FORMATCODE_ARRAY32);
+            buf.put_u8(codec::FORMATCODE_LIST32);
             buf.put_u32_be((size + 4) as u32); // +4 for 4 byte count that follow
             buf.put_u32_be(self.len() as u32);
         } else {
-            buf.put_u8(codec::FORMATCODE_ARRAY8);
+            buf.put_u8(codec::FORMATCODE_LIST8);
             buf.put_u8((size + 1) as u8); // +1 for 1 byte count that follow
             buf.put_u8(self.len() as u8);
         }
-- 
2.43.0


From 9d24146a7a2a56896883407f4285c9b5cd8065f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 10/18] fix: use the wide array encoding when the content is
 254 bytes

The one byte size also covers the item constructor and wrapped to zero.
---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index b15d747..6684f8d 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -545,7 +545,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
     fn encoded_size(&self) -> usize {
         let content_size = array_encoded_size(self);
         // format_code + size + count + item constructor -- todo: support described ctor?
-        (if content_size + 1 > u8::MAX as usize {
+        (if content_size + 2 > u8::MAX as usize {
             10
         } else {
             4
@@ -555,7 +555,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
 
     fn encode(&self, buf: &mut BytesMut) {
         let size = array_encoded_size(self);
-        if size + 1 > u8::MAX as usize {
+        if size + 2 > u8::MAX as usize {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32_be((size + 5) as u32); // +4 for 4 byte count and 1 byte item ctor that follow
             buf.put_u32_be(self.len() as u32);
-- 
2.43.0


From 3a0a7ee9c149ae0929c4d8419bba113b8e04debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 11/18] fix: decode the zero-width ulong form of a descriptor

Descriptor 0 is encoded that way but was rejected on decoding.
---
 src/codec/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index e9309f2..88fdc22 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -456,6 +456,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Option<T> {
 impl DecodeFormatted for Descriptor {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         match fmt {
+            codec::FORMATCODE_ULONG_0 => Ok((input, Descriptor::Ulong(0))),
             codec::FORMATCODE_SMALLULONG => {
                 u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))
             }
-- 
2.43.0


From 1ae33f3d6f10a1e2b24b307b701d8df88d6f55cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 12/18] fix: do not count the header section's descriptor twice

The size of a message with a header was announced 3 bytes too large, in
the frame size and in the size of nested messages too.
---
 src/message/inmessage.rs  | 2 +-
 src/message/outmessage.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 34b66b2..f5dfd52 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -216,7 +216,7 @@ impl Encode for InMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4e9e6fc..e9f80ac 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -208,7 +208,7 @@ impl Encode for OutMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
-- 
2.43.0


From 938c5e21330f41726e302fa3ca33640e3d143f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 13/18] fix: forget the cached message size when the value is
 set

---
 src/message/inmessage.rs  | 1 +
 src/message/outmessage.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index f5dfd52..55596df 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -132,6 +132,7 @@ impl InMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index e9f80ac..10b501f 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -124,6 +124,7 @@ impl OutMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
-- 
2.43.0


From ccb12c52b85d68332bfb58075609017ad57f63cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 14/18] fix: a decoded message leaves no input behind

The last section was returned as unconsumed input.
---
 src/message/inmessage.rs  | 4 ++--
 src/message/outmessage.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 55596df..e3f2be7 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -191,10 +191,10 @@ impl Decode for InMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 10b501f..4d3a43e 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -183,10 +183,10 @@ impl Decode for OutMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
-- 
2.43.0


From 2858e8ec793719cdc0b94eb7cba6f1799dd2af3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 15/18] fix: do not compare the cached size of messages

Equal messages (and frames carrying them) compared unequal once one of
them had been measured or encoded.
---
 src/message/inmessage.rs  | 16 +++++++++++++++-
 src/message/outmessage.rs | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index e3f2be7..573afe0 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -14,7 +14,7 @@ use super::body::MessageBody;
 use super::outmessage::OutMessage;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct InMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -27,6 +27,20 @@ pub struct InMessage {
     size: Cell<usize>,
 }
 
+impl PartialEq for InMessage {
+    // `size` is a cache and not part of the message
+    fn eq(&self, other: &InMessage) -> bool {
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl InMessage {
     /// Create new message and set body
     pub fn with_body(body: Bytes) -> InMessage {
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4d3a43e..db1ba34 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -10,7 +10,7 @@ use crate::types::{Descriptor, Str, Variant, VecVariantMap};
 use super::body::MessageBody;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct OutMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -23,6 +23,20 @@ pub struct OutMessage {
     size: Cell<usize>,
 }
 
+impl PartialEq for OutMessage {
+    // `size` is a cache and not part of the message
+    fn eq(&self, other: &OutMessage) -> bool {
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl OutMessage {
     /// Create new message and set body
     pub fn with_body(body: Bytes) -> OutMessage {
-- 
2.43.0


From 17fec0c72b633a05f7dd5f7c049b0d27264e27a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:49 +0000
Subject: [PATCH 16/18] fix: comparing static with non-static text never
 returned

string::String's comparison with str recurses endlessly.
---
 src/types/mod.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index e6a45e8..53ff696 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -139,16 +139,7 @@ impl borrow::Borrow<str> for Str {
 
 impl PartialEq<Str> for Str {
     fn eq(&self, other: &Str) -> bool {
-        match self {
-            Str::ByteStr(s) => match other {
-                Str::ByteStr(o) => s == o,
-                Str::Static(o) => s == *o,
-            },
-            Str::Static(s) => match other {
-                Str::ByteStr(o) => o == *s,
-                Str::Static(o) => s == o,
-            },
-        }
+        self.as_str() == other.as_str()
     }
 }
 
-- 
2.43.0


From e6bafe0bbded429f9ed89415872c0f8ae6ef4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 17/18] fix: order text consistently with its equality

The derived order told equal static and non-static text apart.
---
 src/types/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 53ff696..2267717 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -1,4 +1,4 @@
-use std::{borrow, fmt, hash, ops};
+use std::{borrow, cmp, fmt, hash, ops};
 
 use bytes::Bytes;
 use string::{String, TryFrom};
@@ -70,7 +70,7 @@ impl List {
     }
 }
 
-#[derive(Clone, Eq, Ord, PartialOrd)]
+#[derive(Clone, Eq)]
 pub enum Str {
     ByteStr(String<Bytes>),
     Static(&'static str),
@@ -143,6 +143,18 @@ impl PartialEq<Str> for Str {
     }
 }
 
+impl PartialOrd for Str {
+    fn partial_cmp(&self, other: &Str) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for Str {
+    fn cmp(&self, other: &Str) -> cmp::Ordering {
+        self.as_str().cmp(other.as_str())
+    }
+}
+
 impl PartialEq<str> for Str {
     fn eq(&self, other: &str) -> bool {
         match self {
-- 
2.43.0


From 09f7a14d88261d0ea411f30020228e72c56cea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:51 +0000
Subject: [PATCH 18/18] fix: replace an application property that is set again

OutMessage encoded a map with the same key twice, which AMQP 1.0 forbids;
InMessage replaces the value.
---
 src/message/outmessage.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index db1ba34..0ef5642 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -93,7 +93,13 @@ impl OutMessage {
     /// Add application property
     pub fn set_app_property<K: Into<Str>, V: Into<Variant>>(mut self, key: K, value: V) -> Self {
         if let Some(ref mut props) = self.application_properties {
-            props.push((key.into(), value.into()));
+            let (key, value) = (key.into(), value.into());
+            // a map must not contain the same key twice
+            if let Some(prop) = props.iter_mut().find(|prop| prop.0 == key) {
+                prop.1 = value;
+            } else {
+                props.push((key, value));
+            }
         } else {
             let mut props = VecVariantMap::default();
             props.push((key.into(), value.into()));
-- 
2.43.0

