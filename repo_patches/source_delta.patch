From 8713bd9b0a4302f93f48cb231534cd6172ab7e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 01/18] fix: do not size allocations by an unread element count

Body::deserialize of an array and deserialize_header of tuples and enums
reserved memory for the count found in the input before reading a single
element, so a few bytes of input could abort the process with a capacity
overflow or an out-of-memory.
---
 dlhn/src/body/mod.rs  | 3 ++-
 dlhn/src/header/de.rs | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/dlhn/src/body/mod.rs b/dlhn/src/body/mod.rs
index 3dcaba0..668af5d 100644
--- a/dlhn/src/body/mod.rs
+++ b/dlhn/src/body/mod.rs
@@ -113,7 +113,8 @@ impl Body {
             Header::Binary => ByteBuf::deserialize(deserializer).map(|v| Self::Binary(v)),
             Header::Array(inner) => {
                 let len = u64::deserialize(&mut *deserializer)?;
-                let mut buf = Vec::with_capacity(len as usize);
+                // `len` is untrusted, so it must not size an allocation.
+                let mut buf = Vec::new();
                 for _ in 0..len {
                     buf.push(Self::deserialize(inner, deserializer)?);
                 }
diff --git a/dlhn/src/header/de.rs b/dlhn/src/header/de.rs
index e0002c9..8ba3f78 100644
--- a/dlhn/src/header/de.rs
+++ b/dlhn/src/header/de.rs
@@ -41,7 +41,8 @@ impl<R: Read> DeserializeHeader<R> for R {
             }
             super::TUPLE_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
-                let mut vec = Vec::with_capacity(size as usize);
+                // `size` is untrusted, so it must not size an allocation.
+                let mut vec = Vec::new();
                 for _ in 0..size {
                     vec.push(self.deserialize_header()?);
                 }
@@ -61,7 +62,7 @@ impl<R: Read> DeserializeHeader<R> for R {
             }
             super::ENUM_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
+                let mut buf = Vec::new();
                 for _ in 0..size {
                     buf.push(self.deserialize_header()?);
                 }
-- 
2.43.0


From e0e64a13c418ed564ebed2dcf5ac9d6c386ff9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 02/18] fix: refuse an encoded date whose year or ordinal
 overflows

Adding the year and ordinal offsets panicked in debug builds and wrapped
to a different date in release builds.
---
 dlhn/src/date.rs        | 8 ++++----
 dlhn/src/format/date.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dlhn/src/date.rs b/dlhn/src/date.rs
index e5a2b57..73cd1f6 100644
--- a/dlhn/src/date.rs
+++ b/dlhn/src/date.rs
@@ -60,12 +60,12 @@ impl<'de> Visitor<'de> for DateVisitor {
     {
         let year = seq
             .next_element::<i32>()?
-            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .and_then(|v| v.checked_add(DATE_YEAR_OFFSET))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
-            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .and_then(|v| v.checked_add(DATE_ORDINAL_OFFSET))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         Ok(Date { year, ordinal })
     }
 }
diff --git a/dlhn/src/format/date.rs b/dlhn/src/format/date.rs
index d5d308d..490a8eb 100644
--- a/dlhn/src/format/date.rs
+++ b/dlhn/src/format/date.rs
@@ -24,12 +24,12 @@ impl<'de> Visitor<'de> for DateVisitor {
     {
         let year = seq
             .next_element::<i32>()?
-            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .and_then(|v| v.checked_add(DATE_YEAR_OFFSET))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
-            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .and_then(|v| v.checked_add(DATE_ORDINAL_OFFSET))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let date = Date::from_ordinal_date(year, ordinal)
             .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?;
         Ok(date)
-- 
2.43.0


From 480c9b4e8ee4b233f27f9c64a9117e22f537fdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 03/18] fix: refuse an encoded date-time that overflows the
 last representable instant

Adding the nanoseconds to a timestamp in the last seconds of the range
panicked.
---
 dlhn/src/date_time.rs        | 5 +++--
 dlhn/src/format/date_time.rs | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dlhn/src/date_time.rs b/dlhn/src/date_time.rs
index 41af62b..ced468a 100644
--- a/dlhn/src/date_time.rs
+++ b/dlhn/src/date_time.rs
@@ -24,8 +24,9 @@ impl std::convert::TryInto<OffsetDateTime> for DateTime {
 
     fn try_into(self) -> Result<OffsetDateTime, Self::Error> {
         OffsetDateTime::from_unix_timestamp(self.unix_timestamp)
-            .map(|v| v + (self.nanosecond as i64).nanoseconds())
-            .or(Err(()))
+            .ok()
+            .and_then(|v| v.checked_add((self.nanosecond as i64).nanoseconds()))
+            .ok_or(())
     }
 }
 
diff --git a/dlhn/src/format/date_time.rs b/dlhn/src/format/date_time.rs
index 44e4bbb..2b798f7 100644
--- a/dlhn/src/format/date_time.rs
+++ b/dlhn/src/format/date_time.rs
@@ -25,9 +25,10 @@ impl<'de> Visitor<'de> for OffsetDateTimeVisitor {
         let nanosecond = seq
             .next_element::<u32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
-        Ok(OffsetDateTime::from_unix_timestamp(unix_timestamp)
-            .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?
-            + (nanosecond as i64).nanoseconds())
+        OffsetDateTime::from_unix_timestamp(unix_timestamp)
+            .ok()
+            .and_then(|v| v.checked_add((nanosecond as i64).nanoseconds()))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))
     }
 }
 
-- 
2.43.0


From 23b0ce791af55b12b2f37b7ff7572f25279fd968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 04/18] fix: read a variant index as the u32 it is written as

The serializer writes variant indices as u32 prefix varints, the
deserializer read them as u16. The two encodings differ from index 8192
on, so such variants decoded as another variant or lost synchronisation.
---
 dlhn/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 651ba33..94cd94d 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -371,7 +371,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        self.deserialize_u16(visitor)
+        self.deserialize_u32(visitor)
     }
 
     fn deserialize_ignored_any<V>(self, _: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 6a34cbebf4565176670565fb429053de8278f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 05/18] fix: map keys are not human readable either

The key serializer claimed to be human readable while everything else is
not, so keys such as IP addresses were written as text that the
deserializer then read in the binary form, silently decoding to other
data, instead of being refused as an unsupported key type.
---
 dlhn/src/ser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index f33e10e..3d28782 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -572,6 +572,11 @@ impl<'a, W: Write> ser::Serializer for MapKeySerializer<'a, W> {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Err(Error::UnsupportedKeyType)
     }
+
+    #[inline]
+    fn is_human_readable(&self) -> bool {
+        false
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2e989948889a1e52f44429116fdc2e5b23894d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 06/18] fix: do not panic in the deserializer entry points left
 as todo!()

deserialize_str and deserialize_bytes, which types such as
serde_bytes::ByteArray ask for, now read the value; deserialize_any and
deserialize_ignored_any report an error, as the format does not describe
itself.
---
 dlhn/src/de.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 94cd94d..f0b5db5 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -63,7 +63,9 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom(
+            "DLHN is not self-describing: the type of a value must be known",
+        ))
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -200,11 +202,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         )
     }
 
-    fn deserialize_str<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_string(visitor)
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -236,11 +238,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         }
     }
 
-    fn deserialize_bytes<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_byte_buf(visitor)
     }
 
     fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -378,7 +380,9 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom(
+            "DLHN is not self-describing: a value of unknown type cannot be skipped",
+        ))
     }
 
     #[inline]
-- 
2.43.0


From 751bb49867725e3629aca52db42d2713805459ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 07/18] fix: refuse to write a header with more than 65535
 members

The member count was truncated to 16 bits, so the bytes described another
type and the rest of the stream was misread.
---
 dlhn/src/header/ser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/header/ser.rs b/dlhn/src/header/ser.rs
index 979635e..6b39ec1 100644
--- a/dlhn/src/header/ser.rs
+++ b/dlhn/src/header/ser.rs
@@ -3,7 +3,8 @@ use crate::{BigDecimal, BigInt, BigUint, Date, DateTime, PrefixVarint};
 use serde_bytes::{ByteBuf, Bytes};
 use std::{
     collections::{BTreeMap, HashMap},
-    io::{Result, Write},
+    convert::TryFrom,
+    io::{Error, ErrorKind, Result, Write},
 };
 
 pub trait SerializeHeader {
@@ -293,9 +294,11 @@ impl Header {
     }
 
     fn serialize_inner_vec<W: Write>(code: u8, inner: &Vec<Header>, writer: &mut W) -> Result<()> {
+        let len = u16::try_from(inner.len())
+            .map_err(|_| Error::new(ErrorKind::InvalidInput, "too many inner headers"))?;
         writer.write_all(&[code])?;
         let mut buf = [0u8; u16::PREFIX_VARINT_BUF_SIZE];
-        let size = (inner.len() as u16).encode_prefix_varint(&mut buf);
+        let size = len.encode_prefix_varint(&mut buf);
         writer.write_all(&buf[..size])?;
         for v in inner {
             v.serialize(writer)?
-- 
2.43.0


From a0dadcdd5924081b0ac57143121902ec12245755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 08/18] fix: read the scale after every non-empty big decimal

format::big_decimal left the scale unread when the digits had the value
zero but were not empty, as in [1, 0, 0], and so misread whatever
followed. The scale is absent only after empty digits, as in
BigDecimal::deserialize.
---
 dlhn/src/format/big_decimal.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 3b7c0cf..c8925af 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -21,16 +21,14 @@ impl<'de> Visitor<'de> for BigDecimalVisitor {
     where
         A: SeqAccess<'de>,
     {
-        let digits = BigInt::from_signed_bytes_le(
-            seq.next_element::<Vec<u8>>()?
-                .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-                .as_slice(),
-        );
-        if digits.is_zero() {
-            Ok(BigDecimal::from(digits))
+        let signed_bytes = seq
+            .next_element::<Vec<u8>>()?
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
+        if signed_bytes.is_empty() {
+            Ok(BigDecimal::zero())
         } else {
             Ok(BigDecimal::new(
-                digits,
+                BigInt::from_signed_bytes_le(signed_bytes.as_slice()),
                 seq.next_element::<i64>()?
                     .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?,
             ))
-- 
2.43.0


From ecf35576754336698a4fa38c18fab189d863cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 09/18] fix: refuse a char encoded as more than one character

Everything after the first character was dropped silently.
---
 dlhn/src/de.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index f0b5db5..076e22c 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -193,13 +193,12 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_char(
-            String::deserialize(self)?
-                .chars()
-                .into_iter()
-                .next()
-                .ok_or(Error::CharSize)?,
-        )
+        let s = String::deserialize(self)?;
+        let mut chars = s.chars();
+        match (chars.next(), chars.next()) {
+            (Some(c), None) => visitor.visit_char(c),
+            _ => Err(Error::CharSize),
+        }
     }
 
     fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 8f1a2a61ebeb557b56755a5b4ca920c02ac4055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 10/18] fix: normalize big decimals without depending on the
 size of the scale

BigDecimal::normalized compares against zero by rescaling, which takes
memory in proportion to the scale (or overflows), and overflows again
subtracting the removed zeros from the scale. Converting or serializing a
decimal with a huge positive or negative scale hung or panicked.
---
 dlhn/src/big_decimal.rs        | 28 ++++++++++++++++++++++++++--
 dlhn/src/format/big_decimal.rs |  6 +++---
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/dlhn/src/big_decimal.rs b/dlhn/src/big_decimal.rs
index 34fe7a7..ccdd6a3 100644
--- a/dlhn/src/big_decimal.rs
+++ b/dlhn/src/big_decimal.rs
@@ -13,16 +13,40 @@ pub struct BigDecimal {
     scale: i64,
 }
 
+/// Removes the trailing zeros of the digits, as far as the scale can express it.
+///
+/// Unlike `bigdecimal::BigDecimal::normalized` and the comparisons it makes, this neither
+/// overflows nor takes time or memory in proportion to the scale.
+#[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
+pub(crate) fn normalize(v: bigdecimal::BigDecimal) -> (bigdecimal::num_bigint::BigInt, i64) {
+    let (bigint, scale) = v.into_bigint_and_exponent();
+    if bigint.is_zero() {
+        return (bigint, 0);
+    }
+    let (sign, mut digits) = bigint.to_radix_be(10);
+    let max_zeros = scale as i128 - i64::MIN as i128;
+    let zeros = digits.iter().rev().take_while(|v| **v == 0).count();
+    let zeros = std::cmp::min(zeros as i128, max_zeros);
+    if zeros == 0 {
+        return (bigint, scale);
+    }
+    digits.truncate(digits.len() - zeros as usize);
+    match bigdecimal::num_bigint::BigInt::from_radix_be(sign, &digits, 10) {
+        Some(bigint) => (bigint, (scale as i128 - zeros) as i64),
+        None => (bigint, scale),
+    }
+}
+
 #[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
 impl From<bigdecimal::BigDecimal> for BigDecimal {
     fn from(v: bigdecimal::BigDecimal) -> Self {
-        if v.is_zero() {
+        let (bigint, scale) = normalize(v);
+        if bigint.is_zero() {
             Self {
                 signed_bytes: Vec::new(),
                 scale: 0,
             }
         } else {
-            let (bigint, scale) = v.normalized().into_bigint_and_exponent();
             Self {
                 signed_bytes: bigint.to_signed_bytes_le(),
                 scale,
diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index c8925af..4437a7d 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -1,4 +1,4 @@
-use crate::de::Error;
+use crate::{big_decimal::normalize, de::Error};
 use bigdecimal::BigDecimal;
 use num_bigint::BigInt;
 use num_traits::Zero;
@@ -39,10 +39,10 @@ impl<'de> Visitor<'de> for BigDecimalVisitor {
 pub fn serialize<T: Serializer>(value: &BigDecimal, serializer: T) -> Result<T::Ok, T::Error> {
     let mut seq = serializer.serialize_seq(None)?;
 
-    if value.is_zero() {
+    let (bigint, scale) = normalize(value.clone());
+    if bigint.is_zero() {
         seq.serialize_element(&0u8)?;
     } else {
-        let (bigint, scale) = value.normalized().into_bigint_and_exponent();
         seq.serialize_element(&bigint.to_signed_bytes_le())?;
         seq.serialize_element(&scale)?;
     }
-- 
2.43.0


From 598ee4830dedc6abb38dba6a85e29a3479c46328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 11/18] fix: do not truncate lengths to 32 bits on 32-bit
 targets

A length or element count of 2^32 or more was taken modulo 2^32 where
usize has 32 bits, so the rest of the input was misread instead of being
refused.
---
 dlhn/src/de.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 076e22c..014aa28 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -226,10 +226,10 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
             let mut s = String::new();
             if self
                 .reader
-                .take(len as u64)
+                .take(len)
                 .read_to_string(&mut s)
-                .or(Err(Error::Read))?
-                != len as usize
+                .or(Err(Error::Read))? as u64
+                != len
             {
                 return Err(Error::Read);
             };
@@ -254,7 +254,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
             let mut result = Vec::new();
             let mut buf = vec![0; MAX_SIZE as usize];
             let mut pos = 0;
-            while result.len() < len as usize {
+            while pos < len {
                 self.reader
                     .read_exact(&mut buf[..(min(MAX_SIZE, len - pos)) as usize])
                     .or(Err(Error::Read))?;
@@ -314,14 +314,14 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         V: de::Visitor<'de>,
     {
         let count = u64::decode_prefix_varint(self.reader).or(Err(Error::Read))?;
-        visitor.visit_seq(SeqDeserializer::new(&mut self, count as usize))
+        visitor.visit_seq(SeqDeserializer::new(&mut self, count))
     }
 
     fn deserialize_tuple<V>(mut self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_seq(SeqDeserializer::new(&mut self, len))
+        visitor.visit_seq(SeqDeserializer::new(&mut self, len as u64))
     }
 
     fn deserialize_tuple_struct<V>(
@@ -333,7 +333,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_seq(SeqDeserializer::new(&mut self, len))
+        visitor.visit_seq(SeqDeserializer::new(&mut self, len as u64))
     }
 
     fn deserialize_map<V>(mut self, visitor: V) -> Result<V::Value, Self::Error>
@@ -341,7 +341,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         V: de::Visitor<'de>,
     {
         let count = u64::decode_prefix_varint(self.reader).or(Err(Error::Read))?;
-        visitor.visit_map(MapDeserializer::new(&mut self, count as usize))
+        visitor.visit_map(MapDeserializer::new(&mut self, count))
     }
 
     fn deserialize_struct<V>(
@@ -392,11 +392,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
 
 struct SeqDeserializer<'a, 'de: 'a, R: Read> {
     deserializer: &'a mut Deserializer<'de, R>,
-    count: usize,
+    count: u64,
 }
 
 impl<'a, 'de: 'a, R: Read> SeqDeserializer<'a, 'de, R> {
-    fn new(deserializer: &'a mut Deserializer<'de, R>, count: usize) -> Self {
+    fn new(deserializer: &'a mut Deserializer<'de, R>, count: u64) -> Self {
         Self {
             deserializer,
             count,
@@ -422,11 +422,11 @@ impl<'a, 'de: 'a, R: Read> de::SeqAccess<'de> for SeqDeserializer<'a, 'de, R> {
 
 struct MapDeserializer<'a, 'de: 'a, R: Read> {
     deserializer: &'a mut Deserializer<'de, R>,
-    count: usize,
+    count: u64,
 }
 
 impl<'a, 'de: 'a, R: Read> MapDeserializer<'a, 'de, R> {
-    fn new(deserializer: &'a mut Deserializer<'de, R>, count: usize) -> Self {
+    fn new(deserializer: &'a mut Deserializer<'de, R>, count: u64) -> Self {
         Self {
             deserializer,
             count,
-- 
2.43.0


From 12693adbf763bf00040abb9cb58575d4f2917c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 12/18] fix: refuse sequences and maps of unknown length

serialize_seq(None) and serialize_map(None) wrote no element count at
all, so what followed was unreadable (serde(flatten) ends up here). They
now fail. The big number and date-time wrappers, which relied on this to
write a fixed sequence of fields, say so with serialize_tuple; their
encoding is unchanged.
---
 dlhn/src/big_decimal.rs        | 12 ++++++------
 dlhn/src/big_int.rs            |  8 ++++----
 dlhn/src/big_uint.rs           |  8 ++++----
 dlhn/src/format/big_decimal.rs | 12 ++++++------
 dlhn/src/format/big_int.rs     | 10 +++++-----
 dlhn/src/format/big_uint.rs    | 10 +++++-----
 dlhn/src/format/date_time.rs   | 10 +++++-----
 dlhn/src/ser.rs                | 12 ++++++------
 8 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/dlhn/src/big_decimal.rs b/dlhn/src/big_decimal.rs
index ccdd6a3..42cde9b 100644
--- a/dlhn/src/big_decimal.rs
+++ b/dlhn/src/big_decimal.rs
@@ -3,7 +3,7 @@ use crate::de::Error;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserialize, Serialize,
 };
 
@@ -70,16 +70,16 @@ impl Serialize for BigDecimal {
     where
         S: serde::Serializer,
     {
-        let mut seq = serializer.serialize_seq(None)?;
+        let mut tuple = serializer.serialize_tuple(2)?;
 
         if self.signed_bytes == [] {
-            seq.serialize_element(&0u8)?;
+            tuple.serialize_element(&0u8)?;
         } else {
-            seq.serialize_element(&self.signed_bytes)?;
-            seq.serialize_element(&self.scale)?;
+            tuple.serialize_element(&self.signed_bytes)?;
+            tuple.serialize_element(&self.scale)?;
         }
 
-        seq.end()
+        tuple.end()
     }
 }
 
diff --git a/dlhn/src/big_int.rs b/dlhn/src/big_int.rs
index 7406693..b4507fd 100644
--- a/dlhn/src/big_int.rs
+++ b/dlhn/src/big_int.rs
@@ -3,7 +3,7 @@ use crate::de::Error;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserialize, Serialize,
 };
 
@@ -33,11 +33,11 @@ impl Serialize for BigInt {
     where
         S: serde::Serializer,
     {
-        let mut seq = serializer.serialize_seq(None)?;
+        let mut tuple = serializer.serialize_tuple(1)?;
 
-        seq.serialize_element(&self.0)?;
+        tuple.serialize_element(&self.0)?;
 
-        seq.end()
+        tuple.end()
     }
 }
 
diff --git a/dlhn/src/big_uint.rs b/dlhn/src/big_uint.rs
index 14a84de..51b9a10 100644
--- a/dlhn/src/big_uint.rs
+++ b/dlhn/src/big_uint.rs
@@ -3,7 +3,7 @@ use crate::de::Error;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserialize, Serialize,
 };
 
@@ -33,11 +33,11 @@ impl Serialize for BigUint {
     where
         S: serde::Serializer,
     {
-        let mut seq = serializer.serialize_seq(None)?;
+        let mut tuple = serializer.serialize_tuple(1)?;
 
-        seq.serialize_element(&self.0)?;
+        tuple.serialize_element(&self.0)?;
 
-        seq.end()
+        tuple.end()
     }
 }
 
diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 4437a7d..f0af850 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -4,7 +4,7 @@ use num_bigint::BigInt;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 
@@ -37,17 +37,17 @@ impl<'de> Visitor<'de> for BigDecimalVisitor {
 }
 
 pub fn serialize<T: Serializer>(value: &BigDecimal, serializer: T) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut tuple = serializer.serialize_tuple(2)?;
 
     let (bigint, scale) = normalize(value.clone());
     if bigint.is_zero() {
-        seq.serialize_element(&0u8)?;
+        tuple.serialize_element(&0u8)?;
     } else {
-        seq.serialize_element(&bigint.to_signed_bytes_le())?;
-        seq.serialize_element(&scale)?;
+        tuple.serialize_element(&bigint.to_signed_bytes_le())?;
+        tuple.serialize_element(&scale)?;
     }
 
-    seq.end()
+    tuple.end()
 }
 
 pub fn deserialize<'de, T: Deserializer<'de>>(deserializer: T) -> Result<BigDecimal, T::Error> {
diff --git a/dlhn/src/format/big_int.rs b/dlhn/src/format/big_int.rs
index 7391d11..f9bf293 100644
--- a/dlhn/src/format/big_int.rs
+++ b/dlhn/src/format/big_int.rs
@@ -3,7 +3,7 @@ use num_bigint::BigInt;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 
@@ -28,15 +28,15 @@ impl<'de> Visitor<'de> for BigIntVisitor {
 }
 
 pub fn serialize<T: Serializer>(big_int: &BigInt, serializer: T) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut tuple = serializer.serialize_tuple(1)?;
 
     if big_int.is_zero() {
-        seq.serialize_element(&0u8)?;
+        tuple.serialize_element(&0u8)?;
     } else {
-        seq.serialize_element(&big_int.to_signed_bytes_le())?;
+        tuple.serialize_element(&big_int.to_signed_bytes_le())?;
     }
 
-    seq.end()
+    tuple.end()
 }
 
 pub fn deserialize<'de, T: Deserializer<'de>>(deserializer: T) -> Result<BigInt, T::Error> {
diff --git a/dlhn/src/format/big_uint.rs b/dlhn/src/format/big_uint.rs
index 2e59501..ea953e2 100644
--- a/dlhn/src/format/big_uint.rs
+++ b/dlhn/src/format/big_uint.rs
@@ -3,7 +3,7 @@ use num_bigint::BigUint;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 
@@ -28,15 +28,15 @@ impl<'de> Visitor<'de> for BigUintVisitor {
 }
 
 pub fn serialize<T: Serializer>(big_uint: &BigUint, serializer: T) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut tuple = serializer.serialize_tuple(1)?;
 
     if big_uint.is_zero() {
-        seq.serialize_element(&0u8)?;
+        tuple.serialize_element(&0u8)?;
     } else {
-        seq.serialize_element(&big_uint.to_bytes_le())?;
+        tuple.serialize_element(&big_uint.to_bytes_le())?;
     }
 
-    seq.end()
+    tuple.end()
 }
 
 pub fn deserialize<'de, T: Deserializer<'de>>(deserializer: T) -> Result<BigUint, T::Error> {
diff --git a/dlhn/src/format/date_time.rs b/dlhn/src/format/date_time.rs
index 2b798f7..68db483 100644
--- a/dlhn/src/format/date_time.rs
+++ b/dlhn/src/format/date_time.rs
@@ -1,7 +1,7 @@
 use crate::de::Error;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 use time::{ext::NumericalDuration, OffsetDateTime};
@@ -36,10 +36,10 @@ pub fn serialize<T: Serializer>(
     date_time: &OffsetDateTime,
     serializer: T,
 ) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
-    seq.serialize_element(&date_time.unix_timestamp())?;
-    seq.serialize_element(&date_time.time().nanosecond())?;
-    seq.end()
+    let mut tuple = serializer.serialize_tuple(2)?;
+    tuple.serialize_element(&date_time.unix_timestamp())?;
+    tuple.serialize_element(&date_time.time().nanosecond())?;
+    tuple.end()
 }
 
 pub fn deserialize<'de, T: Deserializer<'de>>(deserializer: T) -> Result<OffsetDateTime, T::Error> {
diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index 3d28782..baf9c22 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -33,6 +33,8 @@ impl Display for Error {
 
 impl std::error::Error for Error {}
 
+const UNKNOWN_LENGTH: &str = "the length of a sequence or map must be known in advance";
+
 pub struct Serializer<W: Write> {
     output: W,
 }
@@ -203,9 +205,8 @@ impl<'a, W: Write> ser::Serializer for &'a mut Serializer<W> {
     }
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        if let Some(len) = len {
-            len.serialize(&mut *self)?;
-        }
+        let len = len.ok_or_else(|| Error::Message(UNKNOWN_LENGTH.to_string()))?;
+        len.serialize(&mut *self)?;
         Ok(self)
     }
 
@@ -233,9 +234,8 @@ impl<'a, W: Write> ser::Serializer for &'a mut Serializer<W> {
     }
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        if let Some(len) = len {
-            len.serialize(&mut *self)?;
-        }
+        let len = len.ok_or_else(|| Error::Message(UNKNOWN_LENGTH.to_string()))?;
+        len.serialize(&mut *self)?;
         Ok(self)
     }
 
-- 
2.43.0


From edf8f4d18886507dae59c4f0dbd48e81195ed038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 13/18] fix: honour serde skip attributes on the fields of enum
 variants

The derived header listed fields that serde(skip) and
serde(skip_serializing) leave out of the bytes, so a body could not be
decoded by its header, and skip_serializing_if on a variant's field was
accepted although it is refused on a struct's.
---
 dlhn_derive/src/lib.rs | 48 ++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 180b4ce..12f79cb 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -81,8 +81,28 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                     .into();
                 }
 
+                if variant
+                    .fields
+                    .iter()
+                    .any(|field| has_skip_serializing_if(field.attrs.iter()))
+                {
+                    return syn::Error::new(
+                        Span::call_site(),
+                        "skip_serializing_if is not supported",
+                    )
+                    .to_compile_error()
+                    .into();
+                }
+
                 if !is_skip_field(variant.attrs.iter()) {
-                    if variant.fields.is_empty() {
+                    let field_types = variant
+                        .fields
+                        .iter()
+                        .filter(|field| !is_skip_field(field.attrs.iter()))
+                        .map(|field| field.ty.to_token_stream())
+                        .collect::<Vec<proc_macro2::TokenStream>>();
+
+                    if field_types.is_empty() {
                         outers.push(
                             Group::new(Delimiter::Bracket, proc_macro2::TokenStream::new())
                                 .into_token_stream(),
@@ -93,13 +113,13 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                         )
                         .into_token_stream()]);
                     } else {
-                        if variant.fields.len() > 1 {
+                        if field_types.len() > 1 {
                             match &variant.fields {
-                                syn::Fields::Named(fields) => {
+                                syn::Fields::Named(_) => {
                                     // let mut buf = vec![STRUCT_CODE];
                                     let mut buf = vec![TUPLE_CODE];
                                     buf.append(
-                                        &mut (variant.fields.len() as u16)
+                                        &mut (field_types.len() as u16)
                                             .encode_prefix_varint_vec(),
                                     );
                                     outers.push(
@@ -109,16 +129,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                                         .unwrap(),
                                     );
 
-                                    let mut field_types = Vec::new();
-                                    fields.named.iter().for_each(|field| {
-                                        field_types.push(field.ty.to_token_stream());
-                                    });
                                     inners.push(field_types);
                                 }
-                                syn::Fields::Unnamed(fields) => {
+                                syn::Fields::Unnamed(_) => {
                                     let mut buf = vec![TUPLE_CODE];
                                     buf.append(
-                                        &mut (variant.fields.len() as u16)
+                                        &mut (field_types.len() as u16)
                                             .encode_prefix_varint_vec(),
                                     );
                                     outers.push(
@@ -128,13 +144,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                                         .unwrap(),
                                     );
 
-                                    inners.push(
-                                        fields
-                                            .unnamed
-                                            .iter()
-                                            .map(|field| field.ty.to_token_stream())
-                                            .collect(),
-                                    );
+                                    inners.push(field_types);
                                 }
                                 syn::Fields::Unit => todo!(),
                             }
@@ -143,10 +153,6 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                                 Group::new(Delimiter::Bracket, proc_macro2::TokenStream::new())
                                     .into_token_stream(),
                             );
-                            let mut field_types = Vec::new();
-                            variant.fields.iter().for_each(|field| {
-                                field_types.push(field.ty.to_token_stream());
-                            });
                             inners.push(field_types);
                         }
                     }
-- 
2.43.0


From 061fcbc5a929631816b3c07c47c79ec2139ce252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 14/18] fix: refuse to derive a header for flatten, untagged
 and tag without content

The encoded form of such a definition is not a tuple or an enum, so the
derived header described other bytes than are written.
---
 dlhn_derive/src/lib.rs | 55 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 12f79cb..7a816a0 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -16,10 +16,21 @@ const SERDE_ATTRIBUTE: &str = "serde";
 const SKIP_ATTRIBUTE: &str = "skip";
 const SKIP_SERIALIZING_ATTRIBUTE: &str = "skip_serializing";
 const SKIP_SERIALIZING_IF_ATTRIBUTE: &str = "skip_serializing_if";
+const FLATTEN_ATTRIBUTE: &str = "flatten";
+const UNTAGGED_ATTRIBUTE: &str = "untagged";
+const TAG_ATTRIBUTE: &str = "tag";
+const CONTENT_ATTRIBUTE: &str = "content";
 
 #[proc_macro_derive(SerializeHeader, attributes(serde))]
 pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     let item = parse_macro_input!(input as DeriveInput);
+
+    if let Some(message) = find_unsupported_representation(&item) {
+        return syn::Error::new(Span::call_site(), message)
+            .to_compile_error()
+            .into();
+    }
+
     let type_name = item.ident;
 
     match item.data {
@@ -193,6 +204,50 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     }
 }
 
+// The representations a header has no way to describe: `flatten` makes a map of unknown length of
+// a struct, `untagged` leaves out the variant index, `tag` without `content` adds a field.
+fn find_unsupported_representation(item: &DeriveInput) -> Option<&'static str> {
+    let mut fields: Vec<&syn::Field> = Vec::new();
+    let mut attributes = item.attrs.iter().collect::<Vec<_>>();
+
+    match &item.data {
+        syn::Data::Struct(data) => fields.extend(data.fields.iter()),
+        syn::Data::Enum(data) => data.variants.iter().for_each(|variant| {
+            fields.extend(variant.fields.iter());
+            attributes.extend(variant.attrs.iter());
+        }),
+        syn::Data::Union(_) => {}
+    }
+
+    if fields
+        .iter()
+        .any(|field| has_serde_attribute(field.attrs.iter(), FLATTEN_ATTRIBUTE))
+    {
+        Some("flatten is not supported")
+    } else if has_serde_attribute(attributes.iter().copied(), UNTAGGED_ATTRIBUTE) {
+        Some("untagged is not supported")
+    } else if has_serde_attribute(item.attrs.iter(), TAG_ATTRIBUTE)
+        && !has_serde_attribute(item.attrs.iter(), CONTENT_ATTRIBUTE)
+    {
+        Some("tag without content is not supported")
+    } else {
+        None
+    }
+}
+
+fn has_serde_attribute<'a>(mut attributes: impl Iterator<Item = &'a Attribute>, name: &str) -> bool {
+    attributes.any(|attribute| {
+        attribute.path.is_ident(SERDE_ATTRIBUTE)
+            && match attribute.parse_meta() {
+                Ok(Meta::List(v)) => v.nested.iter().any(|v| match v {
+                    NestedMeta::Meta(v) => v.path().is_ident(name),
+                    _ => false,
+                }),
+                _ => false,
+            }
+    })
+}
+
 fn is_skip_field(mut attributes: Iter<Attribute>) -> bool {
     attributes.any(|attribute| {
         attribute.path.get_ident().map(ToString::to_string) == Some(SERDE_ATTRIBUTE.to_string())
-- 
2.43.0


From 674eb32e3d326a3c2e618eee4e74b6acb3f54ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 15/18] fix: describe the field of a newtype struct even if it
 is marked as skipped, as serde writes it

---
 dlhn_derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 7a816a0..0d01d70 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -36,6 +36,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     match item.data {
         syn::Data::Struct(data) => {
             let mut types = Vec::new();
+            let is_newtype = matches!(&data.fields, syn::Fields::Unnamed(fields) if fields.unnamed.len() == 1);
 
             for field in data.fields.iter() {
                 if has_skip_serializing_if(field.attrs.iter()) {
@@ -47,7 +48,8 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                     .into();
                 }
 
-                if !is_skip_field(field.attrs.iter()) {
+                // serde serializes the field of a newtype struct even if it is skipped
+                if is_newtype || !is_skip_field(field.attrs.iter()) {
                     types.push(field.ty.to_token_stream());
                 }
             }
-- 
2.43.0


From babd6518e8b13eadb4f0136239fb707cdebdbdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 16/18] fix: keep the derive's names apart from the types of
 the fields

---
 dlhn_derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 0d01d70..4ac4e72 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -62,7 +62,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
 
             let gen = quote! {
                 impl dlhn::header::ser::SerializeHeader for #type_name {
-                    fn serialize_header<W: std::io::Write>(writer: &mut W) -> std::io::Result<()> {
+                    fn serialize_header<__W: std::io::Write>(writer: &mut __W) -> std::io::Result<()> {
                         writer.write_all(&[
                             // #STRUCT_CODE,
                             #TUPLE_CODE,
@@ -71,7 +71,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                             )*
                         ])?;
                         #(
-                            <#types>::serialize_header(writer)?;
+                            <#types as dlhn::header::ser::SerializeHeader>::serialize_header(writer)?;
                         )*
                         Ok(())
                     }
@@ -180,7 +180,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
 
             let gen = quote! {
                 impl dlhn::header::ser::SerializeHeader for #type_name {
-                    fn serialize_header<W: std::io::Write>(writer: &mut W) -> std::io::Result<()> {
+                    fn serialize_header<__W: std::io::Write>(writer: &mut __W) -> std::io::Result<()> {
                         writer.write_all(&[
                             #ENUM_CODE,
                             #(
@@ -190,7 +190,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                         #(
                             writer.write_all(&#outers)?;
                             #(
-                                <#inners>::serialize_header(writer)?;
+                                <#inners as dlhn::header::ser::SerializeHeader>::serialize_header(writer)?;
                             )*
                         )*
                         Ok(())
-- 
2.43.0


From d6ee7d1e1f53cef582fb55fd45745b0cb3f8e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 17/18] fix: refuse to derive a header for more than 65535
 fields or variants

---
 dlhn_derive/src/lib.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 4ac4e72..c99a068 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -207,21 +207,34 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
 }
 
 // The representations a header has no way to describe: `flatten` makes a map of unknown length of
-// a struct, `untagged` leaves out the variant index, `tag` without `content` adds a field.
+// a struct, `untagged` leaves out the variant index, `tag` without `content` adds a field. Counts
+// are 16 bits wide.
 fn find_unsupported_representation(item: &DeriveInput) -> Option<&'static str> {
     let mut fields: Vec<&syn::Field> = Vec::new();
     let mut attributes = item.attrs.iter().collect::<Vec<_>>();
 
+    let mut largest_count = 0;
+
     match &item.data {
-        syn::Data::Struct(data) => fields.extend(data.fields.iter()),
-        syn::Data::Enum(data) => data.variants.iter().for_each(|variant| {
-            fields.extend(variant.fields.iter());
-            attributes.extend(variant.attrs.iter());
-        }),
+        syn::Data::Struct(data) => {
+            largest_count = count_members(data.fields.iter().map(|field| &field.attrs));
+            fields.extend(data.fields.iter());
+        }
+        syn::Data::Enum(data) => {
+            largest_count = count_members(data.variants.iter().map(|variant| &variant.attrs));
+            data.variants.iter().for_each(|variant| {
+                largest_count =
+                    largest_count.max(count_members(variant.fields.iter().map(|field| &field.attrs)));
+                fields.extend(variant.fields.iter());
+                attributes.extend(variant.attrs.iter());
+            });
+        }
         syn::Data::Union(_) => {}
     }
 
-    if fields
+    if largest_count > u16::MAX as usize {
+        Some("more than 65535 fields or variants are not supported")
+    } else if fields
         .iter()
         .any(|field| has_serde_attribute(field.attrs.iter(), FLATTEN_ATTRIBUTE))
     {
@@ -237,6 +250,12 @@ fn find_unsupported_representation(item: &DeriveInput) -> Option<&'static str> {
     }
 }
 
+fn count_members<'a>(attributes: impl Iterator<Item = &'a Vec<Attribute>>) -> usize {
+    attributes
+        .filter(|attributes| !is_skip_field(attributes.iter()))
+        .count()
+}
+
 fn has_serde_attribute<'a>(mut attributes: impl Iterator<Item = &'a Attribute>, name: &str) -> bool {
     attributes.any(|attribute| {
         attribute.path.is_ident(SERDE_ATTRIBUTE)
-- 
2.43.0


From 485261c8903665a7343f46d962e30735077dc644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 18/18] fix: hygienic names in the derived header
 implementation

---
 dlhn_derive/src/lib.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index c99a068..c546b51 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -62,8 +62,8 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
 
             let gen = quote! {
                 impl dlhn::header::ser::SerializeHeader for #type_name {
-                    fn serialize_header<__W: std::io::Write>(writer: &mut __W) -> std::io::Result<()> {
-                        writer.write_all(&[
+                    fn serialize_header<__W: ::std::io::Write>(__writer: &mut __W) -> ::std::io::Result<()> {
+                        ::std::io::Write::write_all(__writer, &[
                             // #STRUCT_CODE,
                             #TUPLE_CODE,
                             #(
@@ -71,9 +71,9 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                             )*
                         ])?;
                         #(
-                            <#types as dlhn::header::ser::SerializeHeader>::serialize_header(writer)?;
+                            <#types as dlhn::header::ser::SerializeHeader>::serialize_header(__writer)?;
                         )*
-                        Ok(())
+                        ::std::result::Result::Ok(())
                     }
                 }
             };
@@ -180,20 +180,20 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
 
             let gen = quote! {
                 impl dlhn::header::ser::SerializeHeader for #type_name {
-                    fn serialize_header<__W: std::io::Write>(writer: &mut __W) -> std::io::Result<()> {
-                        writer.write_all(&[
+                    fn serialize_header<__W: ::std::io::Write>(__writer: &mut __W) -> ::std::io::Result<()> {
+                        ::std::io::Write::write_all(__writer, &[
                             #ENUM_CODE,
                             #(
                                 #variants_count,
                             )*
                         ])?;
                         #(
-                            writer.write_all(&#outers)?;
+                            ::std::io::Write::write_all(__writer, &#outers)?;
                             #(
-                                <#inners as dlhn::header::ser::SerializeHeader>::serialize_header(writer)?;
+                                <#inners as dlhn::header::ser::SerializeHeader>::serialize_header(__writer)?;
                             )*
                         )*
-                        Ok(())
+                        ::std::result::Result::Ok(())
                     }
                 }
             };
-- 
2.43.0

