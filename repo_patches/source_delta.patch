From d0f4a18dc5392e867f93f365700d4b09f472c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 01/20] fix: reject frames that declare a size smaller than the
 frame header

---
 src/io.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index aeeaa70..b5af826 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 use bytes::{BigEndian, BufMut, ByteOrder, BytesMut};
 use tokio_io::codec::{Decoder, Encoder};
 
-use super::errors::{AmqpCodecError, ProtocolIdError};
+use super::errors::{AmqpCodecError, AmqpParseError, ProtocolIdError};
 use super::framing::HEADER_LEN;
 use crate::codec::{Decode, Encode};
 use crate::protocol::ProtocolId;
@@ -51,6 +51,11 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                     }
                     let size = BigEndian::read_u32(src.as_ref()) as usize;
 
+                    // the size includes the frame header itself
+                    if size < HEADER_LEN {
+                        return Err(AmqpParseError::InvalidSize.into());
+                    }
+
                     // todo: max frame size check
                     self.state = DecodeState::Frame(size - 4);
                     src.split_to(4);
-- 
2.43.0


From a8a32466b42df89f2988aaa148e78454197adf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 02/20] fix: resume at the next frame boundary after a frame
 that fails to decode

---
 src/io.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index b5af826..7f58540 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -74,12 +74,13 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                     }
 
                     let frame_buf = src.split_to(size);
+                    // the whole frame is consumed, whatever its content turns out to be
+                    self.state = DecodeState::FrameHeader;
                     let (remainder, frame) = T::decode(frame_buf.as_ref())?;
                     if !remainder.is_empty() {
                         // todo: could it really happen?
                         return Err(AmqpCodecError::UnparsedBytesLeft);
                     }
-                    self.state = DecodeState::FrameHeader;
                     return Ok(Some(frame));
                 }
             }
-- 
2.43.0


From 3c252bafeb8a366fce740ca5c240ed74dcba5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 03/20] fix: reject compound values whose size does not cover
 their count field

---
 src/codec/decode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index ac419d8..8f6da17 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -531,7 +531,8 @@ pub(crate) fn decode_map_header(
 
 fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 2);
-    let size = input[0] - 1; // -1 for 1 byte count
+    // -1 for 1 byte count
+    let size = input[0].checked_sub(1).ok_or(AmqpParseError::InvalidSize)?;
     let count = input[1];
     Ok((
         &input[2..],
@@ -544,7 +545,10 @@ fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseEr
 
 fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    // -4 for 4 byte count
+    let size = BigEndian::read_u32(input)
+        .checked_sub(4)
+        .ok_or(AmqpParseError::InvalidSize)?;
     let count = BigEndian::read_u32(&input[4..]);
     Ok((&input[8..], CompoundHeader { size, count }))
 }
-- 
2.43.0


From b15d82f2baa4fea095c4dd8a43caafaadda3fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 04/20] fix: check that the declared size of a map is within
 the input

---
 src/codec/decode.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 8f6da17..e88f853 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -253,7 +253,9 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
-        let mut map_input = &input[..header.size as usize];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (mut map_input, input) = input.split_at(size);
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
             HashMap::with_capacity_and_hasher(count as usize, Default::default());
@@ -264,7 +266,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
             map.insert(key, value); // todo: ensure None returned?
         }
         // todo: validate map_input is empty
-        Ok((&input[header.size as usize..], map))
+        Ok((input, map))
     }
 }
 
@@ -286,7 +288,9 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
 impl DecodeFormatted for VecVariantMap {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
-        let mut map_input = &input[..header.size as usize];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (mut map_input, input) = input.split_at(size);
         let count = header.count / 2;
         let mut map = Vec::with_capacity(count as usize);
         for _ in 0..count {
@@ -296,7 +300,7 @@ impl DecodeFormatted for VecVariantMap {
             map.push((key, value)); // todo: ensure None returned?
         }
         // todo: validate map_input is empty
-        Ok((&input[header.size as usize..], VecVariantMap(map)))
+        Ok((input, VecVariantMap(map)))
     }
 }
 
-- 
2.43.0


From 6bbc9cc2f328482dc85d4432a95816d1cf71d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 05/20] fix: confine the constructor and items of an array to
 its declared size

---
 src/codec/decode.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index e88f853..362b9a5 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -273,13 +273,15 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_array_header(input, fmt)?;
-        let item_fmt = input[0]; // todo: support descriptor
-        let mut input = &input[1..];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (array_input, input) = input.split_at(size);
+        let (mut array_input, item_fmt) = read_u8(array_input)?; // todo: support descriptor
         let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            let (new_input, decoded) = T::decode_with_format(input, item_fmt)?;
+            let (new_input, decoded) = T::decode_with_format(array_input, item_fmt)?;
             result.push(decoded);
-            input = new_input;
+            array_input = new_input;
         }
         Ok((input, result))
     }
-- 
2.43.0


From f1a09063ebb8ffa6e283b1b58d10db86a79263c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 06/20] fix: confine the items of a list to its declared size

---
 src/codec/decode.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 362b9a5..fcb81e5 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -323,12 +323,15 @@ impl<T: ArrayDecode + DecodeFormatted> DecodeFormatted for Multiple<T> {
 
 impl DecodeFormatted for List {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
-        let (mut input, header) = decode_list_header(input, fmt)?;
+        let (input, header) = decode_list_header(input, fmt)?;
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (mut list_input, input) = input.split_at(size);
         let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            let (new_input, decoded) = Variant::decode(input)?;
+            let (new_input, decoded) = Variant::decode(list_input)?;
             result.push(decoded);
-            input = new_input;
+            list_input = new_input;
         }
         Ok((input, List(result)))
     }
-- 
2.43.0


From 9f37143155854b5cddb0e82bd2f682291e672ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 07/20] fix: do not allocate memory for declared but not
 received items

---
 src/codec/decode.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index fcb81e5..43fbdf7 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -15,6 +15,9 @@ use crate::types::{
     ByteStr, Descriptor, List, Multiple, Str, Symbol, Variant, VariantMap, VecVariantMap,
 };
 
+/// Upper bound for the capacity reserved on behalf of a declared item count
+const MAX_INITIAL_CAPACITY: usize = 32;
+
 macro_rules! be_read {
     ($input:ident, $fn:ident, $size:expr) => {{
         decode_check_len!($input, $size);
@@ -258,7 +261,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         let (mut map_input, input) = input.split_at(size);
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
-            HashMap::with_capacity_and_hasher(count as usize, Default::default());
+            HashMap::with_capacity_and_hasher(initial_capacity(count, size), Default::default());
         for _ in 0..count {
             let (input1, key) = K::decode(map_input)?;
             let (input2, value) = V::decode(input1)?;
@@ -277,7 +280,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
         decode_check_len!(input, size);
         let (array_input, input) = input.split_at(size);
         let (mut array_input, item_fmt) = read_u8(array_input)?; // todo: support descriptor
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(initial_capacity(header.count, size));
         for _ in 0..header.count {
             let (new_input, decoded) = T::decode_with_format(array_input, item_fmt)?;
             result.push(decoded);
@@ -294,7 +297,7 @@ impl DecodeFormatted for VecVariantMap {
         decode_check_len!(input, size);
         let (mut map_input, input) = input.split_at(size);
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(initial_capacity(count, size));
         for _ in 0..count {
             let (input1, key) = Str::decode(map_input)?;
             let (input2, value) = Variant::decode(input1)?;
@@ -327,7 +330,7 @@ impl DecodeFormatted for List {
         let size = header.size as usize;
         decode_check_len!(input, size);
         let (mut list_input, input) = input.split_at(size);
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<Variant> = Vec::with_capacity(initial_capacity(header.count, size));
         for _ in 0..header.count {
             let (new_input, decoded) = Variant::decode(list_input)?;
             result.push(decoded);
@@ -562,6 +565,12 @@ fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseE
     Ok((&input[8..], CompoundHeader { size, count }))
 }
 
+/// Number of items to allocate room for before decoding a compound value. The declared count is
+/// not trusted: collections grow further as items are actually decoded.
+fn initial_capacity(count: u32, size: usize) -> usize {
+    std::cmp::min(std::cmp::min(count as usize, size), MAX_INITIAL_CAPACITY)
+}
+
 fn datetime_from_millis(millis: i64) -> DateTime<Utc> {
     let seconds = millis / 1000;
     if seconds < 0 {
-- 
2.43.0


From 5711e9a60710145f1565cd30e2e814aedcbafe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 08/20] fix: encode lists with list format codes

---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index 76be9ac..b15d747 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -611,11 +611,11 @@ impl Encode for List {
     fn encode(&self, buf: &mut BytesMut) {
         let size = list_encoded_size(self);
         if size + 1 > u8::MAX as usize {
-            buf.put_u8(codec::FORMATCODE_ARRAY32);
+            buf.put_u8(codec::FORMATCODE_LIST32);
             buf.put_u32_be((size + 4) as u32); // +4 for 4 byte count that follow
             buf.put_u32_be(self.len() as u32);
         } else {
-            buf.put_u8(codec::FORMATCODE_ARRAY8);
+            buf.put_u8(codec::FORMATCODE_LIST8);
             buf.put_u8((size + 1) as u8); // +1 for 1 byte count that follow
             buf.put_u8(self.len() as u8);
         }
-- 
2.43.0


From df9087b1d8be17b1109467656dd50e332ada9496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 09/20] fix: use the wide array encoding when the size byte
 would overflow

---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index b15d747..6684f8d 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -545,7 +545,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
     fn encoded_size(&self) -> usize {
         let content_size = array_encoded_size(self);
         // format_code + size + count + item constructor -- todo: support described ctor?
-        (if content_size + 1 > u8::MAX as usize {
+        (if content_size + 2 > u8::MAX as usize {
             10
         } else {
             4
@@ -555,7 +555,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
 
     fn encode(&self, buf: &mut BytesMut) {
         let size = array_encoded_size(self);
-        if size + 1 > u8::MAX as usize {
+        if size + 2 > u8::MAX as usize {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32_be((size + 5) as u32); // +4 for 4 byte count and 1 byte item ctor that follow
             buf.put_u32_be(self.len() as u32);
-- 
2.43.0


From 890e20315d844686d20af1e5e41bec888cb0e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 10/20] fix: decode timestamps before 1970 exactly and reject
 unrepresentable ones

---
 src/codec/decode.rs | 23 ++++++++++-------------
 src/errors.rs       |  2 ++
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 43fbdf7..1280256 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -173,7 +173,9 @@ impl DecodeFormatted for char {
 impl DecodeFormatted for DateTime<Utc> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         validate_code!(fmt, codec::FORMATCODE_TIMESTAMP);
-        be_read!(input, read_i64, 8).map(|(i, o)| (i, datetime_from_millis(o)))
+        let result: Result<(&[u8], i64), AmqpParseError> = be_read!(input, read_i64, 8);
+        let (input, millis) = result?;
+        Ok((input, datetime_from_millis(millis)?))
     }
 }
 
@@ -571,18 +573,13 @@ fn initial_capacity(count: u32, size: usize) -> usize {
     std::cmp::min(std::cmp::min(count as usize, size), MAX_INITIAL_CAPACITY)
 }
 
-fn datetime_from_millis(millis: i64) -> DateTime<Utc> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds - 1, nanoseconds)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds, nanoseconds)
-    }
+fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
+    // euclidean division: the nanoseconds always count forward from the second
+    let seconds = millis.div_euclid(1000);
+    let nanoseconds = millis.rem_euclid(1000) as u32 * 1_000_000;
+    Utc.timestamp_opt(seconds, nanoseconds)
+        .single()
+        .ok_or(AmqpParseError::InvalidTimestamp(millis))
 }
 
 #[cfg(test)]
diff --git a/src/errors.rs b/src/errors.rs
index 1d7ff3b..e2680c3 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -13,6 +13,8 @@ pub enum AmqpParseError {
     InvalidFormatCode(u8),
     #[display(fmt = "Invalid value converting to char: {}", "_0")]
     InvalidChar(u32),
+    #[display(fmt = "Timestamp is out of range: {}", "_0")]
+    InvalidTimestamp(i64),
     #[display(fmt = "Unexpected descriptor: '{:?}'", "_0")]
     InvalidDescriptor(Descriptor),
     #[display(fmt = "Unexpected frame type: '{:?}'", "_0")]
-- 
2.43.0


From 9631f0685a031a829484165a6a011892f677b835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 11/20] fix: decode descriptors that use the zero-byte ulong
 encoding

---
 src/codec/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 1280256..553ae27 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -457,7 +457,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Option<T> {
 impl DecodeFormatted for Descriptor {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         match fmt {
-            codec::FORMATCODE_SMALLULONG => {
+            codec::FORMATCODE_ULONG_0 | codec::FORMATCODE_SMALLULONG => {
                 u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))
             }
             codec::FORMATCODE_ULONG => {
-- 
2.43.0


From 02b3d62e12f47803bc6dcf069ab4777b4bd8e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 12/20] fix: forget the cached message size when the body value
 changes

---
 src/message/inmessage.rs  | 1 +
 src/message/outmessage.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 34b66b2..a5418e2 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -132,6 +132,7 @@ impl InMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4e9e6fc..f926d23 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -124,6 +124,7 @@ impl OutMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
-- 
2.43.0


From a060d483af03681673e631837e1e7fbe4a617b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 13/20] fix: count the message header's descriptor once in the
 encoded size

---
 src/message/inmessage.rs  | 2 +-
 src/message/outmessage.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index a5418e2..55596df 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -217,7 +217,7 @@ impl Encode for InMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index f926d23..10b501f 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -209,7 +209,7 @@ impl Encode for OutMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
-- 
2.43.0


From 22c1724da25ca8240fba9995298a1f2c10af0733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 14/20] fix: return the unread input as the remainder of a
 decoded message

---
 src/message/inmessage.rs  | 4 ++--
 src/message/outmessage.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 55596df..e3f2be7 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -191,10 +191,10 @@ impl Decode for InMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 10b501f..4d3a43e 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -183,10 +183,10 @@ impl Decode for OutMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
-- 
2.43.0


From 1ba342dca8eda3b8f8c177af0fd88e94769893d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 15/20] fix: implement hashing of maps, so that maps can be
 keys of maps

---
 src/types/variant.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/types/variant.rs b/src/types/variant.rs
index 6fd0f29..8475b62 100644
--- a/src/types/variant.rs
+++ b/src/types/variant.rs
@@ -1,4 +1,5 @@
 use hashbrown::HashMap;
+use std::collections::hash_map::DefaultHasher;
 use std::hash::{Hash, Hasher};
 
 use bytes::Bytes;
@@ -136,8 +137,15 @@ impl VariantMap {
 }
 
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // equal maps may iterate in different orders: combine the entries commutatively
+        let entries = self.map.iter().fold(0u64, |sum, entry| {
+            let mut hasher = DefaultHasher::new();
+            entry.hash(&mut hasher);
+            sum.wrapping_add(hasher.finish())
+        });
+        self.map.len().hash(state);
+        entries.hash(state);
     }
 }
 
-- 
2.43.0


From 80a3146bca7db44b787cfb5ee1ca2346317949f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:31 +0000
Subject: [PATCH 16/20] fix: leave the cached size out of message comparison

---
 src/message/inmessage.rs  | 16 +++++++++++++++-
 src/message/outmessage.rs | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index e3f2be7..d7004c1 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -14,7 +14,7 @@ use super::body::MessageBody;
 use super::outmessage::OutMessage;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct InMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -27,6 +27,20 @@ pub struct InMessage {
     size: Cell<usize>,
 }
 
+impl PartialEq for InMessage {
+    // `size` only caches the encoded size, it is not part of the message
+    fn eq(&self, other: &InMessage) -> bool {
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl InMessage {
     /// Create new message and set body
     pub fn with_body(body: Bytes) -> InMessage {
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4d3a43e..50efd2e 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -10,7 +10,7 @@ use crate::types::{Descriptor, Str, Variant, VecVariantMap};
 use super::body::MessageBody;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct OutMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -23,6 +23,20 @@ pub struct OutMessage {
     size: Cell<usize>,
 }
 
+impl PartialEq for OutMessage {
+    // `size` only caches the encoded size, it is not part of the message
+    fn eq(&self, other: &OutMessage) -> bool {
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl OutMessage {
     /// Create new message and set body
     pub fn with_body(body: Bytes) -> OutMessage {
-- 
2.43.0


From 5c3a1e8e7067d645a97fd1e6f9a03e90d7487d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 17/20] fix: limit the nesting depth of decoded values

---
 src/codec/decode.rs | 31 +++++++++++++++++++++++++++++++
 src/errors.rs       |  2 ++
 2 files changed, 33 insertions(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 553ae27..5ed3022 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -1,3 +1,4 @@
+use std::cell::Cell;
 use std::hash::{BuildHasher, Hash};
 use std::{char, str, u8};
 
@@ -18,6 +19,9 @@ use crate::types::{
 /// Upper bound for the capacity reserved on behalf of a declared item count
 const MAX_INITIAL_CAPACITY: usize = 32;
 
+/// Upper bound for the number of values nested inside each other
+const MAX_NESTING: usize = 128;
+
 macro_rules! be_read {
     ($input:ident, $fn:ident, $size:expr) => {{
         decode_check_len!($input, $size);
@@ -342,8 +346,35 @@ impl DecodeFormatted for List {
     }
 }
 
+thread_local! {
+    static NESTING: Cell<usize> = Cell::new(0);
+}
+
+/// Keeps count of the `Variant`s being decoded inside each other, so that deeply nested input is
+/// rejected before it exhausts the stack
+struct Nesting;
+
+impl Nesting {
+    fn enter() -> Result<Nesting, AmqpParseError> {
+        NESTING.with(|depth| {
+            if depth.get() >= MAX_NESTING {
+                return Err(AmqpParseError::NestingTooDeep(MAX_NESTING));
+            }
+            depth.set(depth.get() + 1);
+            Ok(Nesting)
+        })
+    }
+}
+
+impl Drop for Nesting {
+    fn drop(&mut self) {
+        NESTING.with(|depth| depth.set(depth.get() - 1));
+    }
+}
+
 impl DecodeFormatted for Variant {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
+        let _nesting = Nesting::enter()?;
         match fmt {
             codec::FORMATCODE_NULL => Ok((input, Variant::Null)),
             codec::FORMATCODE_BOOLEAN => {
diff --git a/src/errors.rs b/src/errors.rs
index e2680c3..4382443 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -15,6 +15,8 @@ pub enum AmqpParseError {
     InvalidChar(u32),
     #[display(fmt = "Timestamp is out of range: {}", "_0")]
     InvalidTimestamp(i64),
+    #[display(fmt = "Values are nested more than {} levels deep", "_0")]
+    NestingTooDeep(usize),
     #[display(fmt = "Unexpected descriptor: '{:?}'", "_0")]
     InvalidDescriptor(Descriptor),
     #[display(fmt = "Unexpected frame type: '{:?}'", "_0")]
-- 
2.43.0


From faeb9ea066172151360cd284a9940dea57ccf134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 18/20] fix: compare received and static strings without
 endless recursion

---
 src/types/mod.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index e6a45e8..fd3b03b 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -139,16 +139,8 @@ impl borrow::Borrow<str> for Str {
 
 impl PartialEq<Str> for Str {
     fn eq(&self, other: &Str) -> bool {
-        match self {
-            Str::ByteStr(s) => match other {
-                Str::ByteStr(o) => s == o,
-                Str::Static(o) => s == *o,
-            },
-            Str::Static(s) => match other {
-                Str::ByteStr(o) => o == *s,
-                Str::Static(o) => s == o,
-            },
-        }
+        // `String<Bytes> == str` of the string crate never returns, compare as `str`
+        self.as_str() == other.as_str()
     }
 }
 
-- 
2.43.0


From e24609574d613811e965bb6704a2ee99d3c813ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:25 +0000
Subject: [PATCH 19/20] fix: order strings by their text, not by how they are
 stored

---
 src/types/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index fd3b03b..7c531e5 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -1,4 +1,4 @@
-use std::{borrow, fmt, hash, ops};
+use std::{borrow, cmp, fmt, hash, ops};
 
 use bytes::Bytes;
 use string::{String, TryFrom};
@@ -70,7 +70,7 @@ impl List {
     }
 }
 
-#[derive(Clone, Eq, Ord, PartialOrd)]
+#[derive(Clone, Eq)]
 pub enum Str {
     ByteStr(String<Bytes>),
     Static(&'static str),
@@ -144,6 +144,18 @@ impl PartialEq<Str> for Str {
     }
 }
 
+impl PartialOrd<Str> for Str {
+    fn partial_cmp(&self, other: &Str) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for Str {
+    fn cmp(&self, other: &Str) -> cmp::Ordering {
+        self.as_str().cmp(other.as_str())
+    }
+}
+
 impl PartialEq<str> for Str {
     fn eq(&self, other: &str) -> bool {
         match self {
-- 
2.43.0


From 5ae7bff2e2be2af8b44ebe15b40f3b3c2b0782ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:22 +0000
Subject: [PATCH 20/20] fix: replace an application property that is set again

OutMessage::set_app_property appended a second entry with the same key,
which encodes as a map with a repeated key: invalid AMQP.
---
 src/message/outmessage.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 50efd2e..8c0708e 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -93,7 +93,13 @@ impl OutMessage {
     /// Add application property
     pub fn set_app_property<K: Into<Str>, V: Into<Variant>>(mut self, key: K, value: V) -> Self {
         if let Some(ref mut props) = self.application_properties {
-            props.push((key.into(), value.into()));
+            let key = key.into();
+            // keys of a map are unique, setting a property again replaces its value
+            if let Some(prop) = props.iter_mut().find(|prop| prop.0 == key) {
+                prop.1 = value.into();
+            } else {
+                props.push((key, value.into()));
+            }
         } else {
             let mut props = VecVariantMap::default();
             props.push((key.into(), value.into()));
-- 
2.43.0

