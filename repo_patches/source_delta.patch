From 85dcaffca6cf49f01ad085eaeedca5b24472fe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 01/67] fix: storage decoder entries taken over by
 decode_remaining_entries are no longer reported as left over

---
 crates/musli/src/storage/de.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/storage/de.rs b/crates/musli/src/storage/de.rs
index b31d326..0ccf32b 100644
--- a/crates/musli/src/storage/de.rs
+++ b/crates/musli/src/storage/de.rs
@@ -1,6 +1,6 @@
 use core::fmt;
 use core::marker::PhantomData;
-use core::mem::MaybeUninit;
+use core::mem::{self, MaybeUninit};
 
 use crate::alloc::Vec;
 use crate::de::{
@@ -576,10 +576,13 @@ where
     fn decode_remaining_entries(
         &mut self,
     ) -> Result<Self::DecodeRemainingEntries<'_>, Self::Error> {
+        // The returned decoder takes over the entries which remain.
+        let remaining = mem::take(&mut self.remaining);
+
         Ok(LimitedStorageDecoder::with_remaining(
             self.cx,
             self.reader.borrow_mut(),
-            self.remaining,
+            remaining,
         ))
     }
 }
-- 
2.43.0


From 22e806cc980ee9f8a75dada92b8e73a1645a8ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 02/67] fix: skipping wire and descriptive input no longer
 overflows on nested announced lengths

---
 crates/musli/src/descriptive/de.rs | 19 ++++++++++++++-----
 crates/musli/src/wire/de.rs        | 12 ++++++++++--
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index ff17a9f..6ffad3a 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -63,7 +63,7 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        let mut remaining = 1usize;
 
         while remaining > 0 {
             let tag = Tag::from_byte(self.reader.read_byte(self.cx)?);
@@ -74,10 +74,10 @@ where
                 }
                 Kind::Mark => match tag.mark() {
                     Mark::Variant => {
-                        remaining += 2;
+                        remaining = self.add_remaining(remaining, 2)?;
                     }
                     Mark::Some => {
-                        remaining += 1;
+                        remaining = self.add_remaining(remaining, 1)?;
                     }
                     Mark::Char => {
                         _ = c::decode::<_, _, u32>(self.cx, self.reader.borrow_mut())?;
@@ -95,11 +95,12 @@ where
                 }
                 Kind::Sequence => {
                     let len = self.decode_len(tag)?;
-                    remaining += len;
+                    remaining = self.add_remaining(remaining, len)?;
                 }
                 Kind::Map => {
                     let len = self.decode_len(tag)?;
-                    remaining += len * 2;
+                    remaining = self.add_remaining(remaining, len)?;
+                    remaining = self.add_remaining(remaining, len)?;
                 }
                 kind => {
                     return Err(self
@@ -114,6 +115,14 @@ where
         Ok(())
     }
 
+    #[inline]
+    fn add_remaining(&self, remaining: usize, len: usize) -> Result<usize, C::Error> {
+        match remaining.checked_add(len) {
+            Some(remaining) => Ok(remaining),
+            None => Err(self.cx.message("Length overflow while skipping")),
+        }
+    }
+
     // Standard function for decoding a pair sequence.
     #[inline]
     fn shared_decode_map(mut self) -> Result<RemainingSelfDecoder<OPT, R, C, M>, C::Error> {
diff --git a/crates/musli/src/wire/de.rs b/crates/musli/src/wire/de.rs
index ccf837f..b7b4fe6 100644
--- a/crates/musli/src/wire/de.rs
+++ b/crates/musli/src/wire/de.rs
@@ -63,7 +63,7 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        let mut remaining = 1usize;
 
         while remaining > 0 {
             remaining -= 1;
@@ -87,7 +87,7 @@ where
                         crate::int::decode_usize::<_, _, OPT>(self.cx, self.reader.borrow_mut())?
                     };
 
-                    remaining += len;
+                    remaining = self.add_remaining(remaining, len)?;
                 }
                 Kind::Continuation => {
                     if tag.data().is_none() {
@@ -105,6 +105,14 @@ where
         Ok(())
     }
 
+    #[inline]
+    fn add_remaining(&self, remaining: usize, len: usize) -> Result<usize, C::Error> {
+        match remaining.checked_add(len) {
+            Some(remaining) => Ok(remaining),
+            None => Err(self.cx.message("Length overflow while skipping")),
+        }
+    }
+
     #[inline]
     fn decode_sequence_len(&mut self) -> Result<usize, C::Error> {
         let tag = Tag::from_byte(self.reader.read_byte(self.cx)?);
-- 
2.43.0


From 1c7d43d46d529c84ad0cefb458fc7dbb893c0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 03/67] fix: the prefix of a fixed width wire usize announces
 the number of bytes written

---
 crates/musli/src/wire/int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/wire/int.rs b/crates/musli/src/wire/int.rs
index ec0579b..6cff502 100644
--- a/crates/musli/src/wire/int.rs
+++ b/crates/musli/src/wire/int.rs
@@ -27,7 +27,7 @@ where
         }
         width => {
             let bo = crate::options::byteorder::<OPT>();
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             writer.write_byte(cx, Tag::new(Kind::Prefix, bytes).byte())?;
 
             macro_rules! fixed {
@@ -72,7 +72,7 @@ where
         width => {
             let bo = crate::options::byteorder::<OPT>();
 
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             let tag = Tag::from_byte(reader.read_byte(cx)?);
 
             if tag != Tag::new(Kind::Prefix, bytes) {
-- 
2.43.0


From 0372ba96fa501c58a59b08dc83031db670a7b9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 04/67] fix: skip every remaining element of a descriptive
 sequence

---
 crates/musli/src/descriptive/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 6ffad3a..3872f6a 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -207,7 +207,7 @@ where
 
     #[inline]
     fn skip_sequence_remaining(mut self) -> Result<(), C::Error> {
-        if let Some(item) = self.try_decode_next()? {
+        while let Some(item) = self.try_decode_next()? {
             item.skip()?;
         }
 
-- 
2.43.0


From c73a78da4e8a61a4dda12e260b18c6f56406b122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 05/67] fix: descriptive decode_number no longer consumes the
 tag before decoding the number

---
 crates/musli/src/descriptive/de.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 3872f6a..d02e07b 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -381,7 +381,10 @@ where
         V: Visitor<'de, C, Error = Self::Error, Allocator = Self::Allocator>,
     {
         let cx = self.cx;
-        let tag = Tag::from_byte(self.reader.read_byte(cx)?);
+
+        let Some(tag) = self.reader.peek().map(Tag::from_byte) else {
+            return Err(cx.message("Expected tag in input"));
+        };
 
         match tag.kind() {
             Kind::Number => match tag.data() {
-- 
2.43.0


From 7e4e31a9b0c22683585e411087527c952363460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 06/67] fix: a variable length integer with bits beyond its
 type is an error

---
 crates/musli/src/int/continuation.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/int/continuation.rs b/crates/musli/src/int/continuation.rs
index 5dd1313..947423c 100644
--- a/crates/musli/src/int/continuation.rs
+++ b/crates/musli/src/int/continuation.rs
@@ -34,7 +34,15 @@ where
         }
 
         b = r.read_byte(cx)?;
-        value = value.wrapping_add(T::from_byte(b & MASK_BYTE).wrapping_shl(shift));
+
+        let bits = T::from_byte(b & MASK_BYTE);
+        let shifted = bits.wrapping_shl(shift);
+
+        if shifted >> shift != bits {
+            return Err(cx.message("Bits overflow"));
+        }
+
+        value = value.wrapping_add(shifted);
     }
 
     Ok(value)
-- 
2.43.0


From 2df8cb75695d3f083fed128cd18c0d1eb4c7d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 07/67] fix: descriptive integers and floats are not decoded
 from each other's bits

---
 crates/musli/src/descriptive/de.rs            |  6 ++---
 .../musli/src/descriptive/integer_encoding.rs | 24 ++++++++++++++++++-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index d02e07b..423430c 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -15,7 +15,7 @@ use crate::value::{IntoValueDecoder, Value};
 use crate::Context;
 use crate::{Options, Reader};
 
-use super::integer_encoding::{decode_typed_signed, decode_typed_unsigned};
+use super::integer_encoding::{decode_typed_float, decode_typed_signed, decode_typed_unsigned};
 use super::tag::{Kind, Mark, Tag, F32, F64, I128, I16, I32, I64, I8, U128, U16, U32, U64, U8};
 
 const BUFFER_OPTIONS: Options = options::new().build();
@@ -537,7 +537,7 @@ where
     /// IEEE 754 encoding byte-by-byte.
     #[inline]
     fn decode_f32(self) -> Result<f32, Self::Error> {
-        let bits = self.decode_u32()?;
+        let bits = decode_typed_float(self.cx, self.reader, F32)?;
         Ok(f32::from_bits(bits))
     }
 
@@ -545,7 +545,7 @@ where
     /// IEEE 754 encoding byte-by-byte.
     #[inline]
     fn decode_f64(self) -> Result<f64, Self::Error> {
-        let bits = self.decode_u64()?;
+        let bits = decode_typed_float(self.cx, self.reader, F64)?;
         Ok(f64::from_bits(bits))
     }
 
diff --git a/crates/musli/src/descriptive/integer_encoding.rs b/crates/musli/src/descriptive/integer_encoding.rs
index 39aa221..ffc6104 100644
--- a/crates/musli/src/descriptive/integer_encoding.rs
+++ b/crates/musli/src/descriptive/integer_encoding.rs
@@ -39,7 +39,7 @@ where
 
             Ok(value)
         }
-        NumberKind::Unsigned | NumberKind::Float => Ok(value),
+        NumberKind::Unsigned => Ok(value),
         kind => Err(cx.message(format_args!(
             "Expected signed or unsigned number, got {:?}",
             kind
@@ -47,6 +47,28 @@ where
     }
 }
 
+/// Decode the bits of a float which has the given width and kind.
+#[inline]
+pub(crate) fn decode_typed_float<'de, C, R, T>(
+    cx: C,
+    mut reader: R,
+    bits: u8,
+) -> Result<T, C::Error>
+where
+    C: Context,
+    R: Reader<'de>,
+    T: Unsigned,
+{
+    let expected = Tag::new(Kind::Number, bits);
+    let tag = Tag::from_byte(reader.read_byte(cx)?);
+
+    if tag != expected {
+        return Err(cx.message(format_args!("Expected {expected:?}, got {tag:?}")));
+    }
+
+    c::decode(cx, reader)
+}
+
 #[inline]
 fn encode_typed<C, W, T>(cx: C, mut writer: W, bits: u8, value: T) -> Result<(), C::Error>
 where
-- 
2.43.0


From 8b320836826e66bda2bfbce15208f7fb1f3c8297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 08/67] fix: encoding an empty value into a dynamic Value
 records the unit

---
 crates/musli/src/value/en.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/musli/src/value/en.rs b/crates/musli/src/value/en.rs
index 028431a..8a46ae1 100644
--- a/crates/musli/src/value/en.rs
+++ b/crates/musli/src/value/en.rs
@@ -128,6 +128,7 @@ where
 
     #[inline]
     fn encode_empty(self) -> Result<(), Self::Error> {
+        self.output.write(self.cx, Value::Unit)?;
         Ok(())
     }
 
-- 
2.43.0


From fdc9fee1a9e6d5937881ffe13418c75d4c1b4209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 09/67] fix: floats are decoded from any number in a dynamic
 Value

---
 crates/musli/src/value/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 346fe35..92eba8f 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -211,12 +211,12 @@ where
 
     #[inline]
     fn decode_f32(self) -> Result<f32, Self::Error> {
-        ensure!(self, hint, ExpectedNumber(NumberHint::F32, hint), Value::Number(Number::F32(n)) => Ok(*n))
+        ensure_number!(self, OPT, F32, Value::Number(n) => f32)
     }
 
     #[inline]
     fn decode_f64(self) -> Result<f64, Self::Error> {
-        ensure!(self, hint, ExpectedNumber(NumberHint::F64, hint), Value::Number(Number::F64(n)) => Ok(*n))
+        ensure_number!(self, OPT, F64, Value::Number(n) => f64)
     }
 
     #[inline]
-- 
2.43.0


From 70114f61bc1cc59d61f0cabfce5aec1e798cd74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 10/67] fix: cloning a Value decoder keeps track of it being a
 map key

---
 crates/musli/src/value/de.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 92eba8f..d22b9fd 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -126,7 +126,12 @@ where
 
     #[inline]
     fn try_clone(&self) -> Option<Self::TryClone> {
-        Some(ValueDecoder::new(self.cx, self.value))
+        Some(ValueDecoder {
+            cx: self.cx,
+            value: self.value,
+            map_key: self.map_key,
+            _marker: PhantomData,
+        })
     }
 
     #[inline]
-- 
2.43.0


From 1f82ac5711cd11ae120e63a057653fb1b96c0374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 11/67] fix: a float in a dynamic Value only decodes as an
 integer it is equal to

---
 crates/musli/src/value/de.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index d22b9fd..cd2fedd 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -732,6 +732,15 @@ macro_rules! integer_from {
 
             #[inline]
             fn from_number(number: &Number) -> Result<Self, ErrorMessage> {
+                // Convert a float, but only if it is exactly representable.
+                #[inline]
+                fn exact(v: f64) -> Option<$ty> {
+                    const MIN: f64 = <$ty>::MIN as f64;
+                    const END: f64 = (<$ty>::MAX / 2 + 1) as f64 * 2.0;
+                    let n = v as $ty;
+                    (v >= MIN && v < END && n as f64 == v).then_some(n)
+                }
+
                 let out = match number {
                     Number::U8(n) => Self::try_from(*n).ok(),
                     Number::U16(n) => Self::try_from(*n).ok(),
@@ -745,8 +754,8 @@ macro_rules! integer_from {
                     Number::I128(n) => Self::try_from(*n).ok(),
                     Number::Usize(n) => Self::try_from(*n).ok(),
                     Number::Isize(n) => Self::try_from(*n).ok(),
-                    Number::F32(v) => Some(*v as $ty),
-                    Number::F64(v) => Some(*v as $ty),
+                    Number::F32(v) => exact(f64::from(*v)),
+                    Number::F64(v) => exact(*v),
                 };
 
                 match out {
-- 
2.43.0


From 86e94cd8bd4a58dd73e3ec13366b59cdc30456da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 12/67] fix: values buffered by the descriptive decoder use the
 options of its encoding

---
 crates/musli/src/descriptive/de.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 423430c..f6a88fb 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -8,7 +8,6 @@ use crate::de::{
     UnsizedVisitor, VariantDecoder, Visitor,
 };
 use crate::int::continuation as c;
-use crate::options;
 use crate::reader::Limit;
 use crate::storage::de::StorageDecoder;
 use crate::value::{IntoValueDecoder, Value};
@@ -18,8 +17,6 @@ use crate::{Options, Reader};
 use super::integer_encoding::{decode_typed_float, decode_typed_signed, decode_typed_unsigned};
 use super::tag::{Kind, Mark, Tag, F32, F64, I128, I16, I32, I64, I8, U128, U16, U32, U64, U8};
 
-const BUFFER_OPTIONS: Options = options::new().build();
-
 /// A very simple decoder.
 pub struct SelfDecoder<const OPT: Options, R, C, M> {
     cx: C,
@@ -241,7 +238,7 @@ where
     type Allocator = C::Allocator;
     type Mode = M;
     type TryClone = SelfDecoder<OPT, R::TryClone, C, M>;
-    type DecodeBuffer = IntoValueDecoder<BUFFER_OPTIONS, C, C::Allocator, M>;
+    type DecodeBuffer = IntoValueDecoder<OPT, C, C::Allocator, M>;
     type DecodePack = SelfDecoder<OPT, Limit<R>, C, M>;
     type DecodeSome = Self;
     type DecodeSequence = RemainingSelfDecoder<OPT, R, C, M>;
-- 
2.43.0


From 766f9ee397817851db7637fb240380114fc11a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 13/67] fix: a JSON integer overflowing in its last digit is an
 error

---
 crates/musli/src/json/parser/integer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 8d5ea04..0ae65ed 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -521,11 +521,13 @@ where
     P: Parser<'de>,
     C: Context,
 {
-    let Some(out) = out.checked_mul10() else {
+    let d = T::from_byte(p.read_byte(cx)? - b'0');
+
+    let Some(out) = out.checked_mul10().and_then(|out| out.checked_add(d)) else {
         return Err(cx.message_at(start, IntegerError::IntegerOverflow));
     };
 
-    Ok(out + T::from_byte(p.read_byte(cx)? - b'0'))
+    Ok(out)
 }
 
 /// Decode sequence of zeros.
-- 
2.43.0


From 9fddaf469a86d81c33be172a3de0848b9ea54688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 14/67] fix: a JSON array with more elements than a fixed array
 is an error

---
 crates/musli/src/json/de/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/de/mod.rs b/crates/musli/src/json/de/mod.rs
index ee8f6a6..4766b7b 100644
--- a/crates/musli/src/json/de/mod.rs
+++ b/crates/musli/src/json/de/mod.rs
@@ -281,8 +281,10 @@ where
             let mut index = 0;
 
             while let Some(item) = seq.try_decode_next()? {
-                if index <= N {
-                    bytes[index] = item.decode_u8()?;
+                if let Some(byte) = bytes.get_mut(index) {
+                    *byte = item.decode_u8()?;
+                } else {
+                    item.skip()?;
                 }
 
                 index += 1;
-- 
2.43.0


From aefaf6ad51067aa0cc510e574550833f4335d4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 15/67] fix: whitespace before a JSON float is skipped

---
 crates/musli/src/json/de/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/musli/src/json/de/mod.rs b/crates/musli/src/json/de/mod.rs
index 4766b7b..a5d6093 100644
--- a/crates/musli/src/json/de/mod.rs
+++ b/crates/musli/src/json/de/mod.rs
@@ -263,11 +263,13 @@ where
 
     #[inline]
     fn decode_f32(mut self) -> Result<f32, Self::Error> {
+        self.parser.skip_whitespace(self.cx);
         self.parser.parse_f32(self.cx)
     }
 
     #[inline]
     fn decode_f64(mut self) -> Result<f64, Self::Error> {
+        self.parser.skip_whitespace(self.cx);
         self.parser.parse_f64(self.cx)
     }
 
-- 
2.43.0


From 186c76a45e4d124ff765c5685ec61b81c58ce351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 16/67] fix: JSON integers with an exponent and a zero base or
 fraction parse without overflowing

---
 crates/musli/src/json/parser/integer.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 0ae65ed..f085088 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -179,6 +179,20 @@ where
             return Ok(base);
         }
 
+        // Without a fraction only the base is scaled, and zero is zero at any
+        // scale.
+        if m.value.is_zero() {
+            if base.is_zero() {
+                return Ok(base);
+            }
+
+            return if e > 0 {
+                Ok(check!(base.checked_pow10(e as u32), IntegerOverflow))
+            } else {
+                Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
+            };
+        }
+
         if e >= 0 {
             // Decoding the specified mantissa would result in a fractional number.
             let mantissa_exp = check!(e.checked_sub(m.exp).filter(|n| *n >= 0), Decimal) as u32;
@@ -195,10 +209,8 @@ where
             };
 
             Ok(base)
-        } else if !m.value.is_zero() {
-            Err(IntegerError::Decimal)
         } else {
-            Ok(check!(base.checked_neg_pow10(-e as u32), Decimal))
+            Err(IntegerError::Decimal)
         }
     }
 
-- 
2.43.0


From 0fe48d92bb547b3bfbc9625cd6264d75bc0656e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 17/67] fix: a JSON number of unknown type is parsed exactly or
 as the nearest float

---
 crates/musli/src/json/parser/integer.rs       | 289 +++++++-----------
 .../musli/src/json/parser/mut_slice_parser.rs |   5 +
 crates/musli/src/json/parser/parser.rs        |  41 ++-
 crates/musli/src/json/parser/slice_parser.rs  |   5 +
 4 files changed, 138 insertions(+), 202 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index f085088..94c6d17 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -2,8 +2,7 @@ use crate::json::error::IntegerError;
 use crate::json::parser::Parser;
 use crate::Context;
 
-use self::traits::FromUnsigned;
-pub(crate) use self::traits::{Float, Signed, Unsigned};
+pub(crate) use self::traits::{Signed, Unsigned};
 
 /// Fully deconstructed parts of a signed number.
 #[non_exhaustive]
@@ -74,25 +73,6 @@ where
             None => Err(IntegerError::IntegerOverflow),
         }
     }
-
-    #[inline]
-    pub(crate) fn compute_float<F>(self) -> F
-    where
-        F: Float,
-        F: FromUnsigned<T::Unsigned>,
-    {
-        let Self {
-            is_negative,
-            unsigned: parts,
-        } = self;
-        let value = parts.compute_float::<F>();
-
-        if is_negative {
-            value.negate()
-        } else {
-            value
-        }
-    }
 }
 
 /// The mantissa, or anything after a decimal point.
@@ -104,32 +84,6 @@ pub(crate) struct Mantissa<T> {
     exp: i32,
 }
 
-impl<T> Mantissa<T>
-where
-    T: Unsigned,
-{
-    fn into_float<F>(self) -> Mantissa<F>
-    where
-        F: FromUnsigned<T>,
-    {
-        Mantissa {
-            value: self.value.into_float::<F>(),
-            exp: self.exp,
-        }
-    }
-}
-
-impl<F> Mantissa<F>
-where
-    F: Float,
-{
-    /// Compute as float with a negative exponent.
-    #[inline]
-    fn compute_float(self, e: i32) -> F {
-        self.value.pow10(e - self.exp)
-    }
-}
-
 impl<T> Default for Mantissa<T>
 where
     T: Unsigned,
@@ -213,16 +167,6 @@ where
             Err(IntegerError::Decimal)
         }
     }
-
-    #[inline]
-    pub(crate) fn compute_float<F>(self) -> F
-    where
-        F: Float,
-        F: FromUnsigned<T>,
-    {
-        let Self { base, m, e } = self;
-        base.into_float::<F>().pow10(e) + m.into_float::<F>().compute_float(e)
-    }
 }
 
 /// Implementation to skip over a well-formed JSON number.
@@ -307,6 +251,108 @@ where
     }
 }
 
+/// A whole number found by [`scan_integer`].
+pub(crate) struct ScannedInteger {
+    /// If the number is negative.
+    pub(crate) is_negative: bool,
+    /// The magnitude of the number, which if the number is negative is at most
+    /// that of [`i128::MIN`].
+    pub(crate) value: u128,
+    /// The number of bytes that make up the number.
+    pub(crate) len: usize,
+}
+
+/// Scan the number at the start of `bytes`.
+///
+/// This is `None` if there is no number, and `Some(None)` if the number is not
+/// a whole number that fits in 128 bits.
+pub(crate) fn scan_integer(bytes: &[u8]) -> Option<Option<ScannedInteger>> {
+    let digits = |at: usize| {
+        let bytes = bytes.get(at..).unwrap_or_default();
+        let len = bytes.iter().take_while(|b| is_digit(**b)).count();
+        &bytes[..len]
+    };
+
+    let is_negative = bytes.first() == Some(&b'-');
+    let mut len = usize::from(is_negative);
+
+    let base = match bytes.get(len)? {
+        b'0' => &bytes[len..len + 1],
+        b if is_digit_nonzero(*b) => digits(len),
+        _ => return None,
+    };
+
+    len += base.len();
+
+    let mut fraction = &[][..];
+    let mut is_float = false;
+
+    if bytes.get(len) == Some(&b'.') {
+        is_float = true;
+        fraction = digits(len + 1);
+        len += 1 + fraction.len();
+    }
+
+    let mut e = 0i64;
+
+    if matches!(bytes.get(len), Some(b'e' | b'E')) {
+        is_float = true;
+        len += 1;
+
+        let sign = bytes.get(len);
+        len += usize::from(matches!(sign, Some(b'-' | b'+')));
+
+        let exponent = digits(len);
+        len += exponent.len();
+
+        for b in exponent {
+            e = e.saturating_mul(10).saturating_add(i64::from(b - b'0'));
+        }
+
+        if sign == Some(&b'-') {
+            e = -e;
+        }
+    }
+
+    let scale = |value: u128, e: i64| {
+        let e = u32::try_from(e).ok()?;
+        value.checked_mul(10u128.checked_pow(e)?)
+    };
+
+    let compute = || {
+        let mut value = 0u128;
+        let mut zeros = 0i64;
+
+        for b in base.iter().chain(fraction) {
+            if *b == b'0' {
+                zeros += 1;
+                continue;
+            }
+
+            if value != 0 {
+                value = scale(value, zeros + 1)?;
+            }
+
+            value = value.checked_add(u128::from(b - b'0'))?;
+            zeros = 0;
+        }
+
+        if value == 0 {
+            // Negative zero is only distinct from zero as a float.
+            return (!is_negative || !is_float).then_some(value);
+        }
+
+        let value = scale(value, e.saturating_add(zeros - fraction.len() as i64))?;
+        (!is_negative || value <= i128::MIN.unsigned_abs()).then_some(value)
+    };
+
+    Some(compute().map(|value| ScannedInteger {
+        is_negative,
+        value,
+        len,
+    }))
+}
+
 /// Decode a signed integer.
 #[inline]
 fn decode_signed_base<'de, T, C, P>(cx: C, mut p: P) -> Result<SignedPartsBase<T>, C::Error>
@@ -332,21 +378,6 @@ where
     })
 }
 
-/// Decode a full signed integer.
-pub(crate) fn decode_signed_full<'de, T, C, P>(
-    cx: C,
-    p: &mut P,
-) -> Result<SignedPartsFull<T>, C::Error>
-where
-    C: Context,
-    T: Signed,
-    P: ?Sized + Parser<'de>,
-{
-    p.skip_whitespace(cx);
-
-    decode_signed_full_inner(cx, p)
-}
-
 /// Decode a full signed integer.
 #[inline]
 fn decode_signed_full_inner<'de, T, C, P>(cx: C, mut p: P) -> Result<SignedPartsFull<T>, C::Error>
@@ -599,26 +630,12 @@ mod traits {
         fn negate(self) -> Option<Self::Signed>;
 
         fn signed(self) -> Option<Self::Signed>;
-
-        fn into_float<F>(self) -> F
-        where
-            F: FromUnsigned<Self>;
     }
 
     pub(crate) trait Signed: Sized + fmt::Debug {
         type Unsigned: Unsigned<Signed = Self>;
     }
 
-    pub(crate) trait FromUnsigned<T> {
-        fn from_unsigned(value: T) -> Self;
-    }
-
-    pub(crate) trait Float: Sized + Add<Self, Output = Self> {
-        fn negate(self) -> Self;
-
-        fn pow10(self, e: i32) -> Self;
-    }
-
     macro_rules! count {
         (()) => { 0 };
         ((_)) => { 1 };
@@ -735,11 +752,6 @@ mod traits {
                         Some(self as $signed)
                     }
                 }
-
-                #[inline]
-                fn into_float<F>(self) -> F where F: FromUnsigned<Self> {
-                    F::from_unsigned(self)
-                }
             }
 
             impl Signed for $signed {
@@ -858,99 +870,4 @@ mod traits {
             10000000000000000000,
         ]
     );
-
-    macro_rules! float {
-        ($float:ty, $fallback:path) => {
-            impl Float for $float {
-                #[inline]
-                fn negate(self) -> Self {
-                    -self
-                }
-
-                #[inline]
-                #[cfg(feature = "std")]
-                fn pow10(self, e: i32) -> Self {
-                    self * <$float>::powi(10.0, e)
-                }
-
-                #[inline]
-                #[cfg(not(feature = "std"))]
-                fn pow10(self, e: i32) -> Self {
-                    self * $fallback(10.0, e)
-                }
-            }
-
-            impl FromUnsigned<u8> for $float {
-                fn from_unsigned(value: u8) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u16> for $float {
-                fn from_unsigned(value: u16) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u32> for $float {
-                fn from_unsigned(value: u32) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u64> for $float {
-                fn from_unsigned(value: u64) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u128> for $float {
-                fn from_unsigned(value: u128) -> Self {
-                    value as $float
-                }
-            }
-        };
-    }
-
-    float!(f32, self::no_std::powf32);
-    float!(f64, self::no_std::powf64);
-
-    #[cfg(not(feature = "std"))]
-    mod no_std {
-        macro_rules! powf {
-            ($ty:ty, $name:ident) => {
-                #[inline(never)]
-                pub(crate) fn $name(mut base: $ty, mut exp: i32) -> $ty {
-                    if exp == 0 {
-                        return 1.0;
-                    }
-
-                    while exp & 1 == 0 {
-                        base = base * base;
-                        exp >>= 1;
-                    }
-
-                    if exp == 1 {
-                        return base;
-                    }
-
-                    let mut acc = base;
-
-                    while exp > 1 {
-                        exp >>= 1;
-                        base = base * base;
-
-                        if exp & 1 == 1 {
-                            acc = acc * base;
-                        }
-                    }
-
-                    acc
-                }
-            };
-        }
-
-        powf!(f32, powf32);
-        powf!(f64, powf64);
-    }
 }
diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index 5732b96..42150bf 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -132,6 +132,11 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
         self.slice.first().copied()
     }
 
+    #[inline]
+    fn rest(&self) -> &[u8] {
+        self.slice
+    }
+
     fn parse_f32<C>(&mut self, cx: C) -> Result<f32, C::Error>
     where
         C: Context,
diff --git a/crates/musli/src/json/parser/parser.rs b/crates/musli/src/json/parser/parser.rs
index 76e3104..c7f6678 100644
--- a/crates/musli/src/json/parser/parser.rs
+++ b/crates/musli/src/json/parser/parser.rs
@@ -1,6 +1,7 @@
 use crate::alloc::Vec;
 use crate::de::Visitor;
-use crate::json::parser::integer::decode_signed_full;
+use crate::json::error::IntegerError;
+use crate::json::parser::integer::scan_integer;
 use crate::json::parser::{StringReference, Token};
 use crate::Context;
 
@@ -123,6 +124,10 @@ pub trait Parser<'de>: private::Sealed {
     #[doc(hidden)]
     fn peek(&mut self) -> Option<u8>;
 
+    /// Get the remaining input.
+    #[doc(hidden)]
+    fn rest(&self) -> &[u8];
+
     #[doc(hidden)]
     fn lex<C>(&mut self, cx: C) -> Token
     where
@@ -176,16 +181,21 @@ pub trait Parser<'de>: private::Sealed {
         C: Context,
         V: Visitor<'de, C, Error = C::Error, Allocator = C::Allocator>,
     {
-        let signed = decode_signed_full::<i128, _, _>(cx, self)?;
+        self.skip_whitespace(cx);
+
+        let Some(scanned) = scan_integer(self.rest()) else {
+            return Err(cx.message(IntegerError::InvalidNumeric));
+        };
+
+        let Some(signed) = scanned else {
+            let value = self.parse_f64(cx)?;
+            return visitor.visit_f64(cx, value);
+        };
+
+        self.skip(cx, signed.len)?;
 
         if signed.is_negative {
-            let value = match signed.compute() {
-                Ok(value) => value,
-                Err(..) => {
-                    let value = signed.compute_float();
-                    return visitor.visit_f64(cx, value);
-                }
-            };
+            let value = signed.value.wrapping_neg() as i128;
 
             if value >= i8::MIN as i128 && value <= i8::MAX as i128 {
                 return visitor.visit_i8(cx, value as i8);
@@ -209,13 +219,7 @@ pub trait Parser<'de>: private::Sealed {
 
             visitor.visit_i128(cx, value)
         } else {
-            let value = match signed.unsigned.compute() {
-                Ok(value) => value,
-                Err(..) => {
-                    let value = signed.unsigned.compute_float();
-                    return visitor.visit_f64(cx, value);
-                }
-            };
+            let value = signed.value;
 
             if value <= u8::MAX as u128 {
                 return visitor.visit_u8(cx, value as u8);
@@ -298,6 +302,11 @@ where
         (**self).peek()
     }
 
+    #[inline]
+    fn rest(&self) -> &[u8] {
+        (**self).rest()
+    }
+
     #[inline]
     fn lex<C>(&mut self, cx: C) -> Token
     where
diff --git a/crates/musli/src/json/parser/slice_parser.rs b/crates/musli/src/json/parser/slice_parser.rs
index 36d7afd..d369d70 100644
--- a/crates/musli/src/json/parser/slice_parser.rs
+++ b/crates/musli/src/json/parser/slice_parser.rs
@@ -124,6 +124,11 @@ impl<'de> Parser<'de> for SliceParser<'de> {
         self.slice.get(self.index).copied()
     }
 
+    #[inline]
+    fn rest(&self) -> &[u8] {
+        &self.slice[self.index..]
+    }
+
     fn parse_f32<C>(&mut self, cx: C) -> Result<f32, C::Error>
     where
         C: Context,
-- 
2.43.0


From 5bdee3a2a3ad2ea6aef9c557915a43a864d761a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 18/67] fix: values are only copied bitwise when the configured
 byte order is native

---
 crates/musli/src/options.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/options.rs b/crates/musli/src/options.rs
index c1079d4..d744e6f 100644
--- a/crates/musli/src/options.rs
+++ b/crates/musli/src/options.rs
@@ -328,8 +328,18 @@ const fn is_map_keys_as_numbers_value(opt: Options) -> bool {
 ))]
 pub(crate) const fn is_native_fixed<const OPT: Options>() -> bool {
     matches!(
-        (integer::<OPT>(), float::<OPT>(), length::<OPT>(),),
-        (Integer::Fixed, Float::Fixed, Width::NATIVE)
+        (
+            integer::<OPT>(),
+            float::<OPT>(),
+            length::<OPT>(),
+            byteorder::<OPT>(),
+        ),
+        (
+            Integer::Fixed,
+            Float::Fixed,
+            Width::NATIVE,
+            ByteOrder::NATIVE
+        )
     )
 }
 
-- 
2.43.0


From fe288495ef2170510b21658645a51a4d566259e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 19/67] fix: options, characters, bytes and variants decode
 from values buffered from JSON

---
 crates/musli/src/value/de.rs | 65 ++++++++++++++++++++++++++++++++++--
 1 file changed, 63 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index cd2fedd..ab574fc 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -4,7 +4,7 @@ use core::fmt;
 use core::marker::PhantomData;
 use core::slice;
 
-use crate::alloc::Allocator;
+use crate::alloc::{Allocator, Vec};
 use crate::de::UnsizedVisitor;
 use crate::de::{
     AsDecoder, Decoder, EntriesDecoder, EntryDecoder, MapDecoder, SequenceDecoder, SizeHint, Skip,
@@ -60,6 +60,13 @@ where
     }
 }
 
+/// Values which have been buffered from a text format, where map keys are
+/// strings, lack the distinctions which the text format does not make.
+#[inline]
+const fn is_text<const OPT: Options>() -> bool {
+    crate::options::is_map_keys_as_numbers::<OPT>()
+}
+
 macro_rules! ensure_number {
     ($self:expr, $opt:expr, $hint_type:ident, $value:ident::$variant:ident($v:ident) => $ty:ty) => {
         match $self.value {
@@ -161,6 +168,15 @@ where
 
     #[inline]
     fn decode_char(self) -> Result<char, Self::Error> {
+        // Text formats buffer characters as strings.
+        if let (Value::String(string), true) = (self.value, is_text::<OPT>()) {
+            let mut it = string.chars();
+
+            if let (Some(c), None) = (it.next(), it.next()) {
+                return Ok(c);
+            }
+        }
+
         ensure!(self, hint, ExpectedChar(hint), Value::Char(c) => Ok(*c))
     }
 
@@ -236,6 +252,21 @@ where
 
     #[inline]
     fn decode_array<const N: usize>(self) -> Result<[u8; N], Self::Error> {
+        // Text formats buffer arrays as sequences of numbers.
+        if let (Value::Sequence(values), true) = (self.value, is_text::<OPT>()) {
+            if values.len() != N {
+                return Err(self.cx.message(ErrorMessage::ArrayOutOfBounds));
+            }
+
+            let mut array = [0; N];
+
+            for (byte, value) in array.iter_mut().zip(values.iter()) {
+                *byte = value.decoder::<OPT, _, M>(self.cx).decode_u8()?;
+            }
+
+            return Ok(array);
+        }
+
         ensure!(self, hint, ExpectedBytes(hint), Value::Bytes(bytes) => {
             <[u8; N]>::try_from(bytes.as_slice()).map_err(|_| self.cx.message(ErrorMessage::ArrayOutOfBounds))
         })
@@ -246,6 +277,19 @@ where
     where
         V: UnsizedVisitor<'de, C, [u8], Error = Self::Error, Allocator = Self::Allocator>,
     {
+        // Text formats buffer bytes as sequences of numbers.
+        if let (Value::Sequence(values), true) = (self.value, is_text::<OPT>()) {
+            let mut bytes =
+                Vec::with_capacity_in(values.len(), self.cx.alloc()).map_err(self.cx.map())?;
+
+            for value in values.iter() {
+                let b = value.decoder::<OPT, _, M>(self.cx).decode_u8()?;
+                bytes.push(b).map_err(self.cx.map())?;
+            }
+
+            return visitor.visit_owned(self.cx, bytes);
+        }
+
         ensure!(self, hint, ExpectedBytes(hint), Value::Bytes(bytes) => {
             visitor.visit_borrowed(self.cx, bytes)
         })
@@ -263,6 +307,16 @@ where
 
     #[inline]
     fn decode_option(self) -> Result<Option<Self::DecodeSome>, Self::Error> {
+        // Text formats do not mark optional values, beyond using a unit for
+        // the ones which are missing.
+        if is_text::<OPT>() {
+            match self.value {
+                Value::Unit => return Ok(None),
+                Value::Option(..) => {}
+                _ => return Ok(Some(self)),
+            }
+        }
+
         ensure!(self, hint, ExpectedOption(hint), Value::Option(option) => {
             Ok(option.as_ref().map(|some| ValueDecoder::new(self.cx, some)))
         })
@@ -321,6 +375,13 @@ where
     where
         F: FnOnce(&mut Self::DecodeVariant) -> Result<O, Self::Error>,
     {
+        // Text formats buffer variants as maps with a single entry.
+        if let (Value::Map(values), true) = (self.value, is_text::<OPT>()) {
+            if let [pair] = values.as_slice() {
+                return f(&mut IterValueVariantDecoder::new(self.cx, pair));
+            }
+        }
+
         ensure!(self, hint, ExpectedVariant(hint), Value::Variant(st) => {
             f(&mut IterValueVariantDecoder::new(self.cx, st))
         })
@@ -707,7 +768,7 @@ where
 
     #[inline]
     fn decode_tag(&mut self) -> Result<Self::DecodeTag<'_>, Self::Error> {
-        Ok(ValueDecoder::new(self.cx, &self.pair.0))
+        Ok(ValueDecoder::with_map_key(self.cx, &self.pair.0))
     }
 
     #[inline]
-- 
2.43.0


From 396f3d07c17df00c8287c55155d5087876c030a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 20/67] fix: signed descriptive integers decode as any unsigned
 type they fit

---
 .../musli/src/descriptive/integer_encoding.rs | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/crates/musli/src/descriptive/integer_encoding.rs b/crates/musli/src/descriptive/integer_encoding.rs
index ffc6104..a1ccd12 100644
--- a/crates/musli/src/descriptive/integer_encoding.rs
+++ b/crates/musli/src/descriptive/integer_encoding.rs
@@ -21,17 +21,17 @@ where
 }
 
 #[inline]
-pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, reader: R) -> Result<T, C::Error>
+pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, mut reader: R) -> Result<T, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Unsigned + TryFrom<T::Signed>,
+    T: Unsigned + TryFrom<i128>,
 {
-    let (value, kind): (T, NumberKind) = decode_typed(cx, reader)?;
-
-    match kind {
+    match decode_number_kind(cx, reader.borrow_mut())? {
         NumberKind::Signed => {
-            let value = zig::decode(value);
+            // The zigzag encoding of a value that fits might need one more bit
+            // than the value.
+            let value = zig::decode::<u128>(c::decode(cx, reader)?);
 
             let Ok(value) = T::try_from(value) else {
                 return Err(cx.message(format_args!("Unsigned value outside of signed range")));
@@ -39,7 +39,7 @@ where
 
             Ok(value)
         }
-        NumberKind::Unsigned => Ok(value),
+        NumberKind::Unsigned => c::decode(cx, reader),
         kind => Err(cx.message(format_args!(
             "Expected signed or unsigned number, got {:?}",
             kind
@@ -81,11 +81,10 @@ where
 }
 
 #[inline]
-fn decode_typed<'de, C, R, T>(cx: C, mut reader: R) -> Result<(T, NumberKind), C::Error>
+fn decode_number_kind<'de, C, R>(cx: C, mut reader: R) -> Result<NumberKind, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Unsigned,
 {
     let tag = Tag::from_byte(reader.read_byte(cx)?);
 
@@ -93,7 +92,17 @@ where
         return Err(cx.message(format_args!("Expected {:?}, got {tag:?}", Kind::Number)));
     }
 
-    let kind = tag.number_kind();
+    Ok(tag.number_kind())
+}
+
+#[inline]
+fn decode_typed<'de, C, R, T>(cx: C, mut reader: R) -> Result<(T, NumberKind), C::Error>
+where
+    C: Context,
+    R: Reader<'de>,
+    T: Unsigned,
+{
+    let kind = decode_number_kind(cx, reader.borrow_mut())?;
     Ok((c::decode(cx, reader)?, kind))
 }
 
-- 
2.43.0


From c174d3e0dd2163af5bd07e5709122ddf584d7e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 21/67] fix: a moving string is never left in the middle of a
 character

---
 .../musli/src/json/parser/mut_slice_parser.rs | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index 42150bf..2f60918 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -58,9 +58,11 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
         C: Context,
     {
         let mut access = SliceAccess::new(cx, self.slice, 0);
-        let out = access.parse_string(validate, start, scratch);
+        let out = access.parse_string(validate, start, scratch)?;
+        // An error might be in the middle of a character, so the slice is only
+        // updated once the whole string has been parsed.
         *self.slice = &self.slice[access.index..];
-        out
+        Ok(out)
     }
 
     #[inline]
@@ -69,9 +71,11 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
         C: Context,
     {
         let mut access = SliceAccess::new(cx, self.slice, 0);
-        let out = access.skip_string();
+        let out = access.skip_string()?;
+        // An error might be in the middle of a character, so the slice is only
+        // updated once the whole string has been parsed.
         *self.slice = &self.slice[access.index..];
-        out
+        Ok(out)
     }
 
     #[inline]
@@ -98,9 +102,15 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
         }
 
         let (head, tail) = self.slice.split_at(buf.len());
-        *self.slice = tail;
         buf.copy_from_slice(head);
-        cx.advance(buf.len());
+
+        // Anything which is read is expected to be ASCII. If it isn't we might
+        // be in the middle of a character which the slice must not be split at.
+        if head.is_ascii() {
+            *self.slice = tail;
+            cx.advance(buf.len());
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From a6aebd5519599db366c6a2b231c5fe5a0bb765b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 22/67] fix: decode platform strings from the bytes they are
 encoded as

---
 crates/musli-core/src/impls/alloc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/musli-core/src/impls/alloc.rs b/crates/musli-core/src/impls/alloc.rs
index d94e753..a57ee22 100644
--- a/crates/musli-core/src/impls/alloc.rs
+++ b/crates/musli-core/src/impls/alloc.rs
@@ -917,7 +917,9 @@ where
                 #[cfg(unix)]
                 PlatformTag::Unix => {
                     use std::os::unix::ffi::OsStringExt;
-                    Ok(OsString::from_vec(variant.decode_value()?.decode()?))
+                    Ok(OsString::from_vec(<Vec<u8>>::decode_bytes(
+                        variant.decode_value()?,
+                    )?))
                 }
                 #[cfg(not(windows))]
                 PlatformTag::Windows => Err(cx.message("Unsupported OsString::Windows variant")),
-- 
2.43.0


From 6620cf503e3a5e624b8405de3b7ee294d5815eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 23/67] fix: decode an unbounded range from the sequence it is
 encoded as

---
 crates/musli-core/src/impls/range.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/musli-core/src/impls/range.rs b/crates/musli-core/src/impls/range.rs
index 84004e8..4323d1e 100644
--- a/crates/musli-core/src/impls/range.rs
+++ b/crates/musli-core/src/impls/range.rs
@@ -1,5 +1,6 @@
 use core::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
 
+use crate::de::SequenceDecoder;
 use crate::en::SequenceEncoder;
 use crate::{Allocator, Decode, Decoder, Encode, Encoder};
 
@@ -39,12 +40,15 @@ macro_rules! implement {
             const IS_BITWISE_DECODE: bool = false;
 
             #[inline]
+            #[allow(unused)]
             fn decode<D>(decoder: D) -> Result<Self, D::Error>
             where
                 D: Decoder<'de, Mode = M, Allocator = A>,
             {
-                let ($($field,)*) = decoder.decode()?;
-                Ok($ty { $($field,)* })
+                decoder.decode_sequence_hint($count, |tuple| {
+                    $(let $field = tuple.next()?;)*
+                    Ok($ty { $($field,)* })
+                })
             }
         }
     }
-- 
2.43.0


From 21a99ef0215edba015a0068a201d966634a4f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 24/67] fix: look through nested references and boxes when
 copying in bulk

---
 crates/musli-core/src/en/encode.rs   | 8 ++++----
 crates/musli-core/src/impls/alloc.rs | 6 +++---
 crates/musli-core/src/impls/mod.rs   | 2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/musli-core/src/en/encode.rs b/crates/musli-core/src/en/encode.rs
index b3a9152..a0d0593 100644
--- a/crates/musli-core/src/en/encode.rs
+++ b/crates/musli-core/src/en/encode.rs
@@ -80,7 +80,7 @@ impl<T, M> Encode<M> for &T
 where
     T: ?Sized + Encode<M>,
 {
-    type Encode = T;
+    type Encode = T::Encode;
 
     const IS_BITWISE_ENCODE: bool = false;
 
@@ -99,7 +99,7 @@ where
 
     #[inline]
     fn as_encode(&self) -> &Self::Encode {
-        self
+        (**self).as_encode()
     }
 }
 
@@ -107,7 +107,7 @@ impl<T, M> Encode<M> for &mut T
 where
     T: ?Sized + Encode<M>,
 {
-    type Encode = T;
+    type Encode = T::Encode;
 
     const IS_BITWISE_ENCODE: bool = false;
 
@@ -126,6 +126,6 @@ where
 
     #[inline]
     fn as_encode(&self) -> &Self::Encode {
-        self
+        (**self).as_encode()
     }
 }
diff --git a/crates/musli-core/src/impls/alloc.rs b/crates/musli-core/src/impls/alloc.rs
index a57ee22..10ccb21 100644
--- a/crates/musli-core/src/impls/alloc.rs
+++ b/crates/musli-core/src/impls/alloc.rs
@@ -689,19 +689,19 @@ macro_rules! smart_pointer {
             {
                 const IS_BITWISE_ENCODE: bool = false;
 
-                type Encode = T;
+                type Encode = T::Encode;
 
                 #[inline]
                 fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
                 where
                     E: Encoder<Mode = M>,
                 {
-                    self.as_ref().encode(encoder)
+                    encoder.encode(self.as_ref())
                 }
 
                 #[inline]
                 fn as_encode(&self) -> &Self::Encode {
-                    self
+                    self.as_ref().as_encode()
                 }
             }
 
diff --git a/crates/musli-core/src/impls/mod.rs b/crates/musli-core/src/impls/mod.rs
index 2c2554a..35d2dcd 100644
--- a/crates/musli-core/src/impls/mod.rs
+++ b/crates/musli-core/src/impls/mod.rs
@@ -768,7 +768,7 @@ where
     where
         E: Encoder<Mode = M>,
     {
-        self.0.encode(encoder)
+        encoder.encode(&self.0)
     }
 
     #[inline]
-- 
2.43.0


From 8f81d49c9a9a0fb6947d423424b032f6f4994b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 25/67] fix: validate atomic booleans when decoding in bulk

---
 crates/musli-core/src/impls/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/musli-core/src/impls/mod.rs b/crates/musli-core/src/impls/mod.rs
index 35d2dcd..fd0ddbb 100644
--- a/crates/musli-core/src/impls/mod.rs
+++ b/crates/musli-core/src/impls/mod.rs
@@ -104,14 +104,14 @@ where
 }
 
 macro_rules! atomic_impl {
-    ($size:literal $(, $ty:ident)*) => {
+    ($size:literal, $bitwise:literal $(, $ty:ident)*) => {
         $(
             #[cfg(target_has_atomic = $size)]
             impl<'de, M, A> Decode<'de, M, A> for core::sync::atomic::$ty
             where
                 A: Allocator
             {
-                const IS_BITWISE_DECODE: bool = true;
+                const IS_BITWISE_DECODE: bool = $bitwise;
 
                 fn decode<D>(decoder: D) -> Result<Self, D::Error>
                 where
@@ -124,11 +124,14 @@ macro_rules! atomic_impl {
     };
 }
 
-atomic_impl!("8", AtomicBool, AtomicI8, AtomicU8);
-atomic_impl!("16", AtomicI16, AtomicU16);
-atomic_impl!("32", AtomicI32, AtomicU32);
-atomic_impl!("64", AtomicI64, AtomicU64);
-atomic_impl!("ptr", AtomicIsize, AtomicUsize);
+// Just like a boolean, every bit pattern that comes in is not necessarily
+// valid.
+atomic_impl!("8", false, AtomicBool);
+atomic_impl!("8", true, AtomicI8, AtomicU8);
+atomic_impl!("16", true, AtomicI16, AtomicU16);
+atomic_impl!("32", true, AtomicI32, AtomicU32);
+atomic_impl!("64", true, AtomicI64, AtomicU64);
+atomic_impl!("ptr", true, AtomicIsize, AtomicUsize);
 
 macro_rules! non_zero {
     ($ty:ty) => {
-- 
2.43.0


From 574c23783b5796977324a930738db0cb87bf47b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 26/67] fix: limit the memory reserved for announced lengths in
 the dynamic value

---
 crates/musli/src/value/value.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/value/value.rs b/crates/musli/src/value/value.rs
index f13a642..45e02d7 100644
--- a/crates/musli/src/value/value.rs
+++ b/crates/musli/src/value/value.rs
@@ -16,6 +16,14 @@ use crate::{Allocator, Context, Options};
 use super::de::ValueDecoder;
 use super::type_hint::{NumberHint, TypeHint};
 
+/// The number of elements to reserve space for up front. The hint comes from
+/// the input, and values can be nested, so it can't be trusted beyond this.
+#[inline]
+fn cautious(hint: SizeHint) -> usize {
+    const MAX_PREALLOC: usize = 64;
+    hint.or_default().min(MAX_PREALLOC)
+}
+
 /// A dynamic value capable of representing any [Müsli] type whether it be
 /// complex or simple.
 ///
@@ -399,7 +407,7 @@ where
         let cx = seq.cx();
 
         let mut out =
-            Vec::with_capacity_in(seq.size_hint().or_default(), cx.alloc()).map_err(cx.map())?;
+            Vec::with_capacity_in(cautious(seq.size_hint()), cx.alloc()).map_err(cx.map())?;
 
         while let Some(item) = seq.try_next()? {
             out.push(item).map_err(cx.map())?;
@@ -416,7 +424,7 @@ where
         let cx = map.cx();
 
         let mut out =
-            Vec::with_capacity_in(map.size_hint().or_default(), cx.alloc()).map_err(cx.map())?;
+            Vec::with_capacity_in(cautious(map.size_hint()), cx.alloc()).map_err(cx.map())?;
 
         while let Some(mut entry) = map.decode_entry()? {
             let first = entry.decode_key()?.decode()?;
-- 
2.43.0


From 3a8762033e764dd793f965110bba8623fef6f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 27/67] fix: usize as a pointer size was not swapped to its
 byte order when read

---
 crates/musli-zerocopy/src/pointer/size.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/size.rs b/crates/musli-zerocopy/src/pointer/size.rs
index 4e78928..da328dc 100644
--- a/crates/musli-zerocopy/src/pointer/size.rs
+++ b/crates/musli-zerocopy/src/pointer/size.rs
@@ -132,10 +132,12 @@ macro_rules! impl_size {
             where
                 E: ByteOrder,
             {
-                if self > usize::MAX as $ty {
+                let value = $swap(self);
+
+                if value > usize::MAX as $ty {
                     usize::MAX
                 } else {
-                    $swap(self) as usize
+                    value as usize
                 }
             }
 
@@ -152,4 +154,4 @@ impl_size!(u16, E::swap_u16);
 impl_size!(u32, E::swap_u32);
 #[cfg(target_pointer_width = "64")]
 impl_size!(u64, E::swap_u64);
-impl_size!(usize, core::convert::identity);
+impl_size!(usize, E::swap_usize);
-- 
2.43.0


From ae5bba97fcd7ca6f02355b91a0997c9e37f84118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 28/67] fix: loading at an offset close to the maximum
 overflowed

---
 crates/musli-zerocopy/src/buf/buf.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/buf.rs b/crates/musli-zerocopy/src/buf/buf.rs
index 562ab48..de1dff5 100644
--- a/crates/musli-zerocopy/src/buf/buf.rs
+++ b/crates/musli-zerocopy/src/buf/buf.rs
@@ -751,7 +751,7 @@ impl Buf {
         T: ZeroCopy,
     {
         unsafe {
-            let end = offset + size_of::<T>();
+            let end = offset.saturating_add(size_of::<T>());
 
             // SAFETY: align_of::<T>() is always a power of two.
             let buf = self.inner_get(offset, end, align_of::<T>())?;
@@ -841,7 +841,7 @@ impl Buf {
         }
 
         let start = a.max(b);
-        let end = start + size_of::<T>();
+        let end = start.saturating_add(size_of::<T>());
 
         if end > self.data.len() {
             return Err(Error::new(ErrorKind::OutOfRangeBounds {
@@ -875,7 +875,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = offset + size_of::<T>();
+        let end = offset.saturating_add(size_of::<T>());
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
@@ -900,7 +900,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = start + size_of::<T>();
+        let end = start.saturating_add(size_of::<T>());
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
-- 
2.43.0


From d5b69eb4bd9cb9dfcbaaddd938b025dba621b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 29/67] fix: elements of slices which are out of range for
 their pointer size panicked

---
 crates/musli-zerocopy/src/pointer/ref.rs         |  5 +++--
 crates/musli-zerocopy/src/slice/binary_search.rs | 11 +++++++++--
 crates/musli-zerocopy/src/slice/packed.rs        |  4 +++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 5d2deff..3f82249 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -341,8 +341,9 @@ where
             return None;
         }
 
-        let offset = self.offset.as_usize::<E>() + size_of::<T>() * index;
-        Some(Ref::new(offset))
+        let offset = size_of::<T>().checked_mul(index)?;
+        let offset = self.offset().checked_add(offset)?;
+        Ref::try_with_metadata(offset, ()).ok()
     }
 
     /// Get an unchecked reference directly out of the slice without validation.
diff --git a/crates/musli-zerocopy/src/slice/binary_search.rs b/crates/musli-zerocopy/src/slice/binary_search.rs
index 555cd09..4f19041 100644
--- a/crates/musli-zerocopy/src/slice/binary_search.rs
+++ b/crates/musli-zerocopy/src/slice/binary_search.rs
@@ -1,7 +1,7 @@
 use core::cmp::Ordering;
 
 use crate::buf::{Buf, Visit};
-use crate::error::Error;
+use crate::error::{Error, ErrorKind};
 use crate::slice::Slice;
 use crate::traits::ZeroCopy;
 
@@ -114,7 +114,14 @@ where
         // < size`. Thus `left + size/2 < left + size`, which coupled with
         // the `left + size <= slice.len()` invariant means we have `left +
         // size/2 < slice.len()`, and this is in-bounds.
-        let value = buf.load(slice.get_unchecked(mid))?;
+        let Some(value) = slice.get(mid) else {
+            return Err(Error::new(ErrorKind::IndexOutOfBounds {
+                index: mid,
+                len: slice.len(),
+            }));
+        };
+
+        let value = buf.load(value)?;
         let cmp = f(value)?;
 
         // The reason why we use if/else control flow rather than match
diff --git a/crates/musli-zerocopy/src/slice/packed.rs b/crates/musli-zerocopy/src/slice/packed.rs
index 3844a58..26e66a0 100644
--- a/crates/musli-zerocopy/src/slice/packed.rs
+++ b/crates/musli-zerocopy/src/slice/packed.rs
@@ -231,7 +231,9 @@ where
             return None;
         }
 
-        Some(self.get_unchecked(index))
+        let offset = size_of::<T>().checked_mul(index)?;
+        let offset = self.offset().checked_add(offset)?;
+        Some(Ref::new(offset))
     }
 
     /// Split the slice reference at the given position `at`.
-- 
2.43.0


From aa3b422f53034e70777ae301be0a74feaca817bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 30/67] fix: validate fields at their offset in the value
 rather than by their address

---
 .../musli-zerocopy-macros/src/zero_copy/mod.rs   |  2 +-
 crates/musli-zerocopy/src/buf/validator.rs       | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
index 5f5febb..dd1ede8 100644
--- a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
+++ b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
@@ -556,7 +556,7 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
 
                 // SAFETY: We've systematically ensured that we're only
                 // validating over fields within the size of this type.
-                match *#validator::field::<#ty>(validator)? {
+                match #validator::load_unaligned::<#ty>(validator)? {
                     #(#validate_variants,)*
                     value => return #result::Err(#error::__illegal_enum_discriminant::<Self>(value)),
                 }
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 13f82e1..cefde11 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -3,6 +3,7 @@ use core::mem::{align_of, size_of, transmute};
 use core::ops::Range;
 use core::ptr::{self, NonNull};
 
+use crate::buf;
 use crate::error::Error;
 use crate::traits::ZeroCopy;
 
@@ -11,9 +12,10 @@ use crate::traits::ZeroCopy;
 /// [`Buf`]: crate::buf::Buf
 /// [`Buf::validate_struct`]: crate::buf::Buf::validate_struct
 #[must_use = "Must call `Validator::end` when validation is completed"]
-#[repr(transparent)]
+#[repr(C)]
 pub struct Validator<'a, T: ?Sized> {
     data: NonNull<u8>,
+    offset: usize,
     _marker: PhantomData<&'a T>,
 }
 
@@ -36,6 +38,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     pub(crate) unsafe fn new(data: NonNull<u8>) -> Self {
         Self {
             data,
+            offset: 0,
             _marker: PhantomData,
         }
     }
@@ -114,7 +117,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     #[inline]
     pub unsafe fn byte(&mut self) -> u8 {
         let b = ptr::read(self.data.as_ptr());
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(1));
+        self.advance::<u8>();
         b
     }
 
@@ -260,16 +263,21 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     }
 
     /// Align the current pointer by `F`.
+    ///
+    /// This is relative to the start of the value being validated, since it
+    /// might not be aligned in memory.
     #[inline]
     pub(crate) unsafe fn align_with(&mut self, align: usize) {
-        let offset = self.data.as_ptr().align_offset(align);
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(offset));
+        let count = buf::padding_to(self.offset, align);
+        self.data = NonNull::new_unchecked(self.data.as_ptr().add(count));
+        self.offset += count;
     }
 
     /// Advance the current pointer by `F`.
     #[inline]
     pub(crate) unsafe fn advance<F>(&mut self) {
         self.data = NonNull::new_unchecked(self.data.as_ptr().add(size_of::<F>()));
+        self.offset += size_of::<F>();
     }
 
     /// Return the address range associated with a just read `F` for diagnostics.
-- 
2.43.0


From 2a10e83518623e3959a81eb9eccde64861cc5e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 31/67] fix: fields of structs packed to more than their own
 alignment were misplaced

---
 crates/musli-zerocopy/src/buf/padder.rs    | 3 ++-
 crates/musli-zerocopy/src/buf/validator.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/padder.rs b/crates/musli-zerocopy/src/buf/padder.rs
index 06d78f9..f6cb062 100644
--- a/crates/musli-zerocopy/src/buf/padder.rs
+++ b/crates/musli-zerocopy/src/buf/padder.rs
@@ -80,7 +80,8 @@ impl<'a, T: ?Sized> Padder<'a, T> {
     where
         F: ZeroCopy,
     {
-        let count = buf::padding_to(self.offset, align);
+        // NB: packing only ever lowers the alignment of a field.
+        let count = buf::padding_to(self.offset, align.min(align_of::<F>()));
         // zero out padding.
         self.data.as_ptr().add(self.offset).write_bytes(0, count);
         self.offset += count;
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index cefde11..9fbc879 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -236,7 +236,8 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     where
         F: ZeroCopy,
     {
-        self.align_with(align);
+        // NB: packing only ever lowers the alignment of a field.
+        self.align_with(align.min(align_of::<F>()));
         F::validate(&mut Validator::new(self.data))?;
         self.advance::<F>();
         Ok(())
-- 
2.43.0


From 3c082e8abd3ab4ec4f7f372c1451f81fbc22f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 32/67] fix: ignored zero-copy fields affect the offset of
 those which follow

---
 .../src/zero_copy/mod.rs                      | 70 ++++++++++++++++---
 crates/musli-zerocopy/src/buf/padder.rs       | 25 +++++--
 crates/musli-zerocopy/src/buf/validator.rs    | 15 ++++
 3 files changed, 97 insertions(+), 13 deletions(-)

diff --git a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
index dd1ede8..22e27a9 100644
--- a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
+++ b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
@@ -188,27 +188,46 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
 
                     match r.repr_packed {
                         Some((_, align)) => {
+                            let pads = output.layout.iter().map(|&(ty, ignore)| {
+                                if ignore {
+                                    quote!(#padder::ignore_with::<#ty>(padder, #align);)
+                                } else {
+                                    quote!(#padder::pad_with::<#ty>(padder, #align);)
+                                }
+                            });
+
+                            let validates = output.layout.iter().map(|&(ty, ignore)| {
+                                if ignore {
+                                    quote!(#validator::ignore_with::<#ty>(validator, #align);)
+                                } else {
+                                    quote!(#validator::validate_with::<#ty>(validator, #align)?;)
+                                }
+                            });
+
                             pad = quote! {
-                                #(#padder::pad_with::<#types>(padder, #align);)*
+                                #(#pads)*
                             };
 
                             validate = quote! {
                                 // SAFETY: We've systematically ensured that we're
                                 // only validating over fields within the size of
                                 // this type.
-                                #(#validator::validate_with::<#types>(validator, #align)?;)*
+                                #(#validates)*
                             };
                         }
                         _ => {
+                            let pads = output.pads(&padder);
+                            let validates = output.validates(&validator);
+
                             pad = quote! {
-                                #(#padder::pad::<#types>(padder);)*
+                                #(#pads)*
                             };
 
                             validate = quote! {
                                 // SAFETY: We've systematically ensured that we're
                                 // only validating over fields within the size of
                                 // this type.
-                                #(#validator::validate::<#types>(validator)?;)*
+                                #(#validates)*
                             };
                         }
                     }
@@ -374,7 +393,7 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
                     }
                 }
 
-                let types = &output.types;
+                let validates = output.validates(&validator);
 
                 let discriminant_const =
                     syn::Ident::new(&format!("DISCRIMINANT{}", index), variant.ident.span());
@@ -387,17 +406,17 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
 
                 validate_variants.push(quote! {
                     #discriminant_const => {
-                        #(#validator::validate::<#types>(validator)?;)*
+                        #(#validates)*
                     }
                 });
 
                 let ident = &variant.ident;
 
-                let Fields { types, .. } = &output;
+                let pads = output.pads(&padder);
 
                 pad_variants.push(quote! {
                     #discriminant_const => {
-                        #(#padder::pad::<#types>(padder);)*
+                        #(#pads)*
                     }
                 });
 
@@ -726,6 +745,11 @@ fn build_field_exhaustive_pattern<const N: usize>(
 #[derive(Default)]
 struct Fields<'a> {
     types: Vec<&'a syn::Type>,
+    /// Every field in order, and whether it is ignored.
+    ///
+    /// Ignored fields are zero-sized but still affect the offset of the fields
+    /// which follow them.
+    layout: Vec<(&'a syn::Type, bool)>,
     exhaustive: Vec<syn::Member>,
     assigns: Vec<syn::FieldValue>,
     members: Vec<syn::Member>,
@@ -736,6 +760,34 @@ struct Fields<'a> {
     check_zero_sized: Vec<&'a syn::Type>,
 }
 
+impl Fields<'_> {
+    fn pads(&self, padder: &syn::Path) -> Vec<TokenStream> {
+        self.layout
+            .iter()
+            .map(|&(ty, ignore)| {
+                if ignore {
+                    quote!(#padder::ignore::<#ty>(padder);)
+                } else {
+                    quote!(#padder::pad::<#ty>(padder);)
+                }
+            })
+            .collect()
+    }
+
+    fn validates(&self, validator: &syn::Path) -> Vec<TokenStream> {
+        self.layout
+            .iter()
+            .map(|&(ty, ignore)| {
+                if ignore {
+                    quote!(#validator::ignore::<#ty>(validator);)
+                } else {
+                    quote!(#validator::validate::<#ty>(validator)?;)
+                }
+            })
+            .collect()
+    }
+}
+
 fn process_fields<'a>(cx: &Ctxt, fields: &'a syn::Fields) -> Fields<'a> {
     let mut output = Fields::default();
 
@@ -786,6 +838,8 @@ fn process_fields<'a>(cx: &Ctxt, fields: &'a syn::Fields) -> Fields<'a> {
             syn::Member::Unnamed(index) => syn::parse_quote!(#index: #variable),
         });
 
+        output.layout.push((ty, ignore.is_some()));
+
         if ignore.is_some() {
             output.check_zero_sized.push(ty);
             output.ignored_members.push(member);
diff --git a/crates/musli-zerocopy/src/buf/padder.rs b/crates/musli-zerocopy/src/buf/padder.rs
index f6cb062..b2dca38 100644
--- a/crates/musli-zerocopy/src/buf/padder.rs
+++ b/crates/musli-zerocopy/src/buf/padder.rs
@@ -80,11 +80,7 @@ impl<'a, T: ?Sized> Padder<'a, T> {
     where
         F: ZeroCopy,
     {
-        // NB: packing only ever lowers the alignment of a field.
-        let count = buf::padding_to(self.offset, align.min(align_of::<F>()));
-        // zero out padding.
-        self.data.as_ptr().add(self.offset).write_bytes(0, count);
-        self.offset += count;
+        self.ignore_with::<F>(align);
 
         if F::PADDED {
             let ptr = NonNull::new_unchecked(self.data.as_ptr().add(self.offset));
@@ -96,6 +92,25 @@ impl<'a, T: ?Sized> Padder<'a, T> {
         self.offset += size_of::<F>();
     }
 
+    /// Pad up to a zero-sized field `F` which is otherwise ignored.
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn ignore<F>(&mut self) {
+        self.ignore_with::<F>(align_of::<F>());
+    }
+
+    /// Pad up to a zero-sized field `F` in a packed struct which is otherwise
+    /// ignored.
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn ignore_with<F>(&mut self, align: usize) {
+        // NB: packing only ever lowers the alignment of a field.
+        let count = buf::padding_to(self.offset, align.min(align_of::<F>()));
+        // zero out padding.
+        self.data.as_ptr().add(self.offset).write_bytes(0, count);
+        self.offset += count;
+    }
+
     /// Specific method to both pad for a discriminant and load it
     /// simultaneously for inspection.
     ///
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 9fbc879..2ff9c16 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -243,6 +243,21 @@ impl<'a, T: ?Sized> Validator<'a, T> {
         Ok(())
     }
 
+    /// Skip over a zero-sized field `F` which is not validated.
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn ignore<F>(&mut self) {
+        self.align_with(align_of::<F>());
+    }
+
+    /// Skip over a zero-sized field `F` in a packed struct which is not
+    /// validated.
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn ignore_with<F>(&mut self, align: usize) {
+        self.align_with(align.min(align_of::<F>()));
+    }
+
     /// Only validate the given field without aligning it.
     ///
     /// # Safety
-- 
2.43.0


From c37f5195cc8961f8046f0bdc1a9b11fc2ad14375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 33/67] fix: clones of owned buffers are allocated with the
 requested alignment

---
 crates/musli-zerocopy/src/buf/owned_buf.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/owned_buf.rs b/crates/musli-zerocopy/src/buf/owned_buf.rs
index 45caee5..8c74431 100644
--- a/crates/musli-zerocopy/src/buf/owned_buf.rs
+++ b/crates/musli-zerocopy/src/buf/owned_buf.rs
@@ -1262,13 +1262,15 @@ where
 {
     fn clone(&self) -> Self {
         unsafe {
+            // NB: Since the clone has to be allocated, it might as well have the
+            // requested alignment. This also ensures that an empty clone is
+            // dangling with the alignment it claims to have requested.
             let mut new = ManuallyDrop::new(Self::with_capacity_and_custom_alignment(
-                self.len, self.align,
+                self.len,
+                self.requested,
             ));
             new.as_mut_ptr()
                 .copy_from_nonoverlapping(self.as_ptr(), self.len);
-            // Set requested to the same as original.
-            new.requested = self.requested;
             new.len = self.len;
             ManuallyDrop::into_inner(new)
         }
-- 
2.43.0


From 17f0ed0201272b7b7c0b8c4888918836ac7cab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 34/67] fix: swapping optional non-zero integers with the sign
 bit set aborts with debug assertions

---
 crates/musli-zerocopy/src/traits.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/crates/musli-zerocopy/src/traits.rs b/crates/musli-zerocopy/src/traits.rs
index bbcc758..f7cfb03 100644
--- a/crates/musli-zerocopy/src/traits.rs
+++ b/crates/musli-zerocopy/src/traits.rs
@@ -18,7 +18,7 @@
 
 use core::array;
 use core::marker::PhantomData;
-use core::mem::{align_of, size_of, transmute};
+use core::mem::{align_of, size_of};
 use core::num::Wrapping;
 use core::ptr::NonNull;
 use core::slice;
@@ -1077,14 +1077,8 @@ macro_rules! impl_nonzero_number {
             where
                 E: ByteOrder,
             {
-                // SAFETY: All bit-patterns are habitable, zero we can rely on
-                // byte-order conversion from the inner type.
-                unsafe {
-                    transmute(<$inner as ZeroCopy>::swap_bytes::<E>(transmute::<
-                        Self,
-                        $inner,
-                    >(self)))
-                }
+                // NB: `None` is zero, which is byte-order independent.
+                self.map(<::core::num::$ty as ZeroCopy>::swap_bytes::<E>)
             }
         }
 
-- 
2.43.0


From 5dd6f4a419909e66d3165359d2b867160e27acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 35/67] fix: the length of coerced references was not adjusted
 in its byte order

---
 crates/musli-zerocopy/src/pointer/ref.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 3f82249..776b3c4 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -692,9 +692,12 @@ where
         T: Coerce<U>,
         U: ?Sized + Pointee,
     {
+        // NB: Metadata is adjusted in the native byte order.
+        let metadata = T::coerce_metadata::<O>(self.metadata.swap_bytes::<E>());
+
         Ref {
             offset: self.offset,
-            metadata: T::coerce_metadata(self.metadata),
+            metadata: metadata.swap_bytes::<E>(),
             _marker: PhantomData,
         }
     }
@@ -764,9 +767,12 @@ where
         T: Coerce<U>,
         U: ?Sized + Pointee,
     {
+        // NB: Metadata is adjusted in the native byte order.
+        let metadata = T::try_coerce_metadata::<O>(self.metadata.swap_bytes::<E>())?;
+
         Some(Ref {
             offset: self.offset,
-            metadata: T::try_coerce_metadata(self.metadata)?,
+            metadata: metadata.swap_bytes::<E>(),
             _marker: PhantomData,
         })
     }
-- 
2.43.0


From 87570446a44baa93517cd7cf83127a538279aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 36/67] fix: references to arrays in another byte order lost
 their offset as slices

---
 crates/musli-zerocopy/src/pointer/ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 776b3c4..5ed2963 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -813,7 +813,7 @@ where
     /// ```
     #[inline]
     pub fn array_into_slice(self) -> Ref<[T], E, O> {
-        Ref::with_metadata(self.offset, N)
+        Ref::with_metadata(self.offset(), N)
     }
 }
 
-- 
2.43.0


From fefcf931e843eb518052a845b76c3b31bdef282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 37/67] fix: references in another byte order were ordered by
 their stored bytes

---
 crates/musli-zerocopy/src/pointer/ref.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 5ed2963..3a1c441 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -903,12 +903,14 @@ where
 {
     #[inline]
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        match self.offset.partial_cmp(&other.offset) {
+        // NB: Compare what is referenced, regardless of byte order.
+        match self.offset().partial_cmp(&other.offset()) {
             Some(Ordering::Equal) => {}
             ord => return ord,
         }
 
-        self.metadata.partial_cmp(&other.metadata)
+        let metadata = self.metadata.swap_bytes::<E>();
+        metadata.partial_cmp(&other.metadata.swap_bytes::<E>())
     }
 }
 
@@ -920,12 +922,14 @@ where
 {
     #[inline]
     fn cmp(&self, other: &Self) -> Ordering {
-        match self.offset.cmp(&other.offset) {
+        // NB: Compare what is referenced, regardless of byte order.
+        match self.offset().cmp(&other.offset()) {
             Ordering::Equal => {}
             ord => return ord,
         }
 
-        self.metadata.cmp(&other.metadata)
+        let metadata = self.metadata.swap_bytes::<E>();
+        metadata.cmp(&other.metadata.swap_bytes::<E>())
     }
 }
 
-- 
2.43.0


From 3177040fd4c7b79c20db371d764976dbbe2fdb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 38/67] fix: iterating references to elements without a size
 yielded none of them

---
 crates/musli-zerocopy/src/pointer/ref.rs | 27 ++++++++++--------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 3a1c441..db541f7 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -453,12 +453,9 @@ where
     /// ```
     #[inline]
     pub fn iter(self) -> Iter<T, E, O> {
-        let start = self.offset.as_usize::<E>();
-        let end = start + self.metadata.as_usize::<E>() * size_of::<T>();
-
         Iter {
-            start,
-            end,
+            start: self.offset(),
+            len: self.len(),
             _marker: PhantomData,
         }
     }
@@ -508,7 +505,7 @@ where
 /// See [`Ref::iter`].
 pub struct Iter<T, E, O> {
     start: usize,
-    end: usize,
+    len: usize,
     _marker: PhantomData<(T, E, O)>,
 }
 
@@ -522,12 +519,14 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.start == self.end {
-            return None;
+        self.len = self.len.checked_sub(1)?;
+        let start = self.start;
+
+        // NB: What follows the last element might be out of range.
+        if self.len > 0 {
+            self.start += size_of::<T>();
         }
 
-        let start = self.start;
-        self.start += size_of::<T>();
         Some(Ref::new(start))
     }
 }
@@ -540,12 +539,8 @@ where
 {
     #[inline]
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.start == self.end {
-            return None;
-        }
-
-        self.end -= size_of::<T>();
-        Some(Ref::new(self.end))
+        self.len = self.len.checked_sub(1)?;
+        Some(Ref::new(self.start + size_of::<T>() * self.len))
     }
 }
 
-- 
2.43.0


From d392045e4ce2db9eae103d2965c76022e0a661f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:00 +0000
Subject: [PATCH 39/67] fix: perfect hashes of more than a few entries used
 displacements of other buckets

---
 crates/musli-zerocopy/src/phf/generator.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/generator.rs b/crates/musli-zerocopy/src/phf/generator.rs
index 26eee0c..80c2101 100644
--- a/crates/musli-zerocopy/src/phf/generator.rs
+++ b/crates/musli-zerocopy/src/phf/generator.rs
@@ -1,3 +1,4 @@
+use core::cmp::Reverse;
 use core::hash::Hash;
 
 use alloc::vec;
@@ -84,14 +85,18 @@ where
         hashes.push(h);
     }
 
-    let mut buckets = vec![Vec::<usize>::new(); displacements.len()];
+    let mut buckets = (0..displacements.len())
+        .map(|index| (index, Vec::<usize>::new()))
+        .collect::<Vec<_>>();
 
     for (index, hash) in hashes.iter().enumerate() {
         let to = hash.g % buckets.len();
-        buckets[to].push(index);
+        buckets[to].1.push(index);
     }
 
-    buckets.sort_by_key(|a| a.len());
+    // Place the largest buckets first, while the table still has space for
+    // them.
+    buckets.sort_by_key(|(_, bucket)| Reverse(bucket.len()));
 
     let table_len = hashes.len();
     // let mut map = vec![usize::MAX; table_len];
@@ -111,7 +116,9 @@ where
     // chosen the right displacements.
     let mut values_to_add = vec![];
 
-    'outer: for (bucket, d_ref) in buckets.iter().zip(displacements.iter()) {
+    'outer: for (index, bucket) in &buckets {
+        let d_ref = displacements.at(*index);
+
         for d1 in 0..(table_len as u32) {
             'inner: for d2 in 0..(table_len as u32) {
                 values_to_add.clear();
-- 
2.43.0


From e1a9df41835d25dce09e2cd409804c3ab994ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 40/67] fix: entries of perfect hashes were moved to the wrong
 places

---
 crates/musli-zerocopy/src/phf/factory.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/factory.rs b/crates/musli-zerocopy/src/phf/factory.rs
index b8c4977..463ea3f 100644
--- a/crates/musli-zerocopy/src/phf/factory.rs
+++ b/crates/musli-zerocopy/src/phf/factory.rs
@@ -1,6 +1,7 @@
 #![allow(clippy::type_complexity)]
 
 use core::hash::Hash;
+use core::mem::replace;
 
 use crate::buf::{StoreBuf, Visit};
 use crate::error::Error;
@@ -177,17 +178,20 @@ where
         )?
     };
 
-    for (from, a) in map.iter().enumerate() {
+    // Move every entry to its place by following the cycles of the map, which
+    // for every place contains the entry that belongs there.
+    for start in 0..map.len() {
+        let mut at = start;
+
         loop {
-            let to = *buf.as_mut_buf().load(a)?;
+            let from = replace(buf.as_mut_buf().load_mut(map.at(at))?, at);
 
-            if from != to {
-                buf.swap(entries.at(from), entries.at(to))?;
-                buf.swap(map.at(from), map.at(to))?;
-                continue;
+            if from == start {
+                break;
             }
 
-            break;
+            buf.swap(entries.at(at), entries.at(from))?;
+            at = from;
         }
     }
 
-- 
2.43.0


From 2931b9357b5429c81f70cdbb33a02dfe7441b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 41/67] fix: the length of hash tables with 16 buckets or more
 included unused buckets

---
 crates/musli-zerocopy/src/swiss/constructor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/swiss/constructor.rs b/crates/musli-zerocopy/src/swiss/constructor.rs
index 5a204c0..03ef9f4 100644
--- a/crates/musli-zerocopy/src/swiss/constructor.rs
+++ b/crates/musli-zerocopy/src/swiss/constructor.rs
@@ -84,7 +84,7 @@ where
 
     /// Get the length of the table.
     pub(crate) fn len(&self) -> usize {
-        self.bucket_mask - self.growth_left
+        bucket_mask_to_capacity(self.bucket_mask) - self.growth_left
     }
 
     /// Returns the number of buckets in the table.
-- 
2.43.0


From 3842a0a698d211578d5b9a7e183082460b763b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 42/67] fix: hash tables of types for which zero is not valid
 could not be bound

---
 crates/musli-zerocopy/src/swiss/constructor.rs | 12 ++++++++++++
 crates/musli-zerocopy/src/swiss/factory.rs     | 11 +++++++++++
 2 files changed, 23 insertions(+)

diff --git a/crates/musli-zerocopy/src/swiss/constructor.rs b/crates/musli-zerocopy/src/swiss/constructor.rs
index 03ef9f4..0befb05 100644
--- a/crates/musli-zerocopy/src/swiss/constructor.rs
+++ b/crates/musli-zerocopy/src/swiss/constructor.rs
@@ -131,6 +131,18 @@ where
         bucket
     }
 
+    /// Write the given value to every bucket which is not in use.
+    pub(crate) fn fill_unused(&mut self, value: &T)
+    where
+        T: ZeroCopy,
+    {
+        for index in 0..self.buckets() {
+            if !self.is_bucket_full(index) {
+                self.bucket(index).write(value);
+            }
+        }
+    }
+
     /// Returns a pointer to an element in the table.
     #[inline]
     pub fn bucket(&mut self, index: usize) -> Bucket<'_, T> {
diff --git a/crates/musli-zerocopy/src/swiss/factory.rs b/crates/musli-zerocopy/src/swiss/factory.rs
index 146e773..5c498d0 100644
--- a/crates/musli-zerocopy/src/swiss/factory.rs
+++ b/crates/musli-zerocopy/src/swiss/factory.rs
@@ -267,16 +267,27 @@ where
         buf.align_in_place();
         let mut table = Constructor::<U, _>::with_buf(buf, ctrl_ptr, base_ptr, buckets);
 
+        let mut last = None;
+
         for v in entries {
             let mut hasher = SipHasher13::new_with_keys(0, key);
             let v = hash(table.buf(), v, &mut hasher)?;
             let hash = hasher.finish();
             table.insert(hash, &v)?;
+            last = Some(v);
+        }
+
+        // All buckets are validated when the table is bound, and the zeros in
+        // unused ones might not be valid.
+        if let Some(value) = last.filter(|_| !U::ANY_BITS) {
+            table.fill_unused(&value);
         }
 
         (table.bucket_mask(), table.len())
     };
 
+    let buckets = if len == 0 { 0 } else { buckets };
+
     let ctrl = Ref::with_metadata(ctrl_ptr, ctrl_len);
     let buckets = Ref::with_metadata(base_ptr, buckets);
     Ok((key, ctrl, buckets, bucket_mask, len))
-- 
2.43.0


From 04252ef6d61f21dcef929256c5ef8323a53bb9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 43/67] fix: queries of corrupted hash tables could overflow or
 not terminate

---
 crates/musli-zerocopy/src/swiss/map.rs     |  5 ++++-
 crates/musli-zerocopy/src/swiss/raw/mod.rs | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/swiss/map.rs b/crates/musli-zerocopy/src/swiss/map.rs
index cdc0b29..71dcaea 100644
--- a/crates/musli-zerocopy/src/swiss/map.rs
+++ b/crates/musli-zerocopy/src/swiss/map.rs
@@ -22,7 +22,7 @@ use crate::endian::{ByteOrder, Native};
 use crate::error::{Error, ErrorKind};
 use crate::pointer::{DefaultSize, Ref, Size};
 use crate::sip::SipHasher13;
-use crate::swiss::raw::{h2, probe_seq, Group};
+use crate::swiss::raw::{check_bounds, h2, probe_seq, Group};
 use crate::swiss::Entry;
 use crate::{Endian, ZeroCopy};
 
@@ -451,6 +451,8 @@ impl<'a, T> RawTable<'a, T> {
         hash: u64,
         eq: &mut dyn FnMut(usize) -> Result<bool, Error>,
     ) -> Result<Option<usize>, Error> {
+        check_bounds(self.bucket_mask, self.ctrl.len())?;
+
         let h2_hash = h2(hash);
         let mut probe_seq = probe_seq(self.bucket_mask, hash);
 
@@ -574,6 +576,7 @@ where
         let mut probe_seq = probe_seq(self.bucket_mask.to_ne(), hash);
 
         let ctrl = buf.load(self.ctrl)?;
+        check_bounds(self.bucket_mask.to_ne(), ctrl.len())?;
 
         loop {
             let range = probe_seq.pos..probe_seq.pos + size_of::<Group>();
diff --git a/crates/musli-zerocopy/src/swiss/raw/mod.rs b/crates/musli-zerocopy/src/swiss/raw/mod.rs
index 12c628b..4e26723 100644
--- a/crates/musli-zerocopy/src/swiss/raw/mod.rs
+++ b/crates/musli-zerocopy/src/swiss/raw/mod.rs
@@ -69,6 +69,22 @@ impl ProbeSeq {
     }
 }
 
+/// Check that the control bytes of a table with the given mask are in bounds.
+///
+/// This also ensures that a [`ProbeSeq`] over the table is limited by the number
+/// of control bytes that are available.
+#[inline]
+pub(crate) fn check_bounds(bucket_mask: usize, len: usize) -> Result<(), Error> {
+    if bucket_mask >= len.saturating_sub(Group::WIDTH) {
+        return Err(Error::new(ErrorKind::ControlRangeOutOfBounds {
+            range: bucket_mask..bucket_mask.saturating_add(Group::WIDTH),
+            len,
+        }));
+    }
+
+    Ok(())
+}
+
 // Constant for h2 function that grabing the top 7 bits of the hash.
 const MIN_HASH_LEN: usize = if mem::size_of::<usize>() < mem::size_of::<u64>() {
     mem::size_of::<usize>()
-- 
2.43.0


From 5186e2c4d89e7aedb45add8f32aec14b45b35a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 44/67] fix: queries of corrupted perfect hashes without
 entries panicked

---
 crates/musli-zerocopy/src/phf/hashing.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/hashing.rs b/crates/musli-zerocopy/src/phf/hashing.rs
index 9327cfe..8572c0c 100644
--- a/crates/musli-zerocopy/src/phf/hashing.rs
+++ b/crates/musli-zerocopy/src/phf/hashing.rs
@@ -52,7 +52,11 @@ pub(crate) fn get_index(
         }));
     };
 
-    Ok(displace(f1, f2, d1, d2) as usize % len)
+    let Some(index) = (displace(f1, f2, d1, d2) as usize).checked_rem(len) else {
+        return Err(Error::new(ErrorKind::IndexOutOfBounds { index: 0, len }));
+    };
+
+    Ok(index)
 }
 
 #[inline]
@@ -74,5 +78,9 @@ where
         }));
     };
 
-    Ok(displace(f1, f2, d1, d2) as usize % len)
+    let Some(index) = (displace(f1, f2, d1, d2) as usize).checked_rem(len) else {
+        return Err(Error::new(ErrorKind::IndexOutOfBounds { index: 0, len }));
+    };
+
+    Ok(index)
 }
-- 
2.43.0


From aa76156f06a80d1d9f02046d947dd18197c01771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 45/67] fix: keys of tries which share a prefix with a later
 key were not stored below it

---
 crates/musli-zerocopy/src/trie/factory.rs | 44 +++++++++++++----------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/crates/musli-zerocopy/src/trie/factory.rs b/crates/musli-zerocopy/src/trie/factory.rs
index d27a265..13fec79 100644
--- a/crates/musli-zerocopy/src/trie/factory.rs
+++ b/crates/musli-zerocopy/src/trie/factory.rs
@@ -165,24 +165,27 @@ where
                     this.children[n].links.values.push(value);
                     return Ok(());
                 }
-                BinarySearch::Missing(0) => {
-                    this.children.insert(
-                        0,
-                        Node {
-                            string: Ref::try_with_metadata(string.offset(), string.len())?,
-                            links: Links::new(value),
-                        },
-                    );
-                    return Ok(());
-                }
                 BinarySearch::Missing(n) => {
-                    let pre = n - 1;
-
-                    // Find common prefix and split nodes if necessary.
-                    let prefix = prefix(buf.load(this.children[pre].string)?, current);
+                    // The child which shares a prefix with the current string
+                    // might come both before and after it, but thanks to
+                    // children not sharing any prefix there is at most one.
+                    let mut found = None;
+
+                    for index in [n.checked_sub(1), Some(n)].into_iter().flatten() {
+                        let Some(child) = this.children.get(index) else {
+                            continue;
+                        };
+
+                        let prefix = prefix(buf.load(child.string)?, current);
+
+                        if prefix != 0 {
+                            found = Some((index, prefix));
+                            break;
+                        }
+                    }
 
-                    // No common prefix in prior node, so a new node is needed.
-                    if prefix == 0 {
+                    // No common prefix in either node, so a new node is needed.
+                    let Some((index, prefix)) = found else {
                         this.children.insert(
                             n,
                             Node {
@@ -191,9 +194,9 @@ where
                             },
                         );
                         return Ok(());
-                    }
+                    };
 
-                    let child = &mut this.children[pre];
+                    let child = &mut this.children[index];
 
                     // This happens if `current` contains a shorter subset match
                     // than the string represented by `child`, like `work` and
@@ -217,6 +220,11 @@ where
                     current = &current[prefix..];
                     string = string.split_at(prefix).1;
                     this = &mut child.links;
+
+                    if current.is_empty() {
+                        this.values.push(value);
+                        return Ok(());
+                    }
                 }
             }
         }
-- 
2.43.0


From e2d2af94e60dc6fecdfcddaff08d6c2e3bd7cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 46/67] fix: lookups in tries matched keys which only share a
 prefix

---
 crates/musli-zerocopy/src/trie/mod.rs  | 5 +++--
 crates/musli-zerocopy/src/trie/walk.rs | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/trie/mod.rs b/crates/musli-zerocopy/src/trie/mod.rs
index 16f4953..a2c87f9 100644
--- a/crates/musli-zerocopy/src/trie/mod.rs
+++ b/crates/musli-zerocopy/src/trie/mod.rs
@@ -252,10 +252,11 @@ where
                     let child = this.children.get_unchecked(n - 1);
                     let child = buf.load(child)?;
 
-                    // Find common prefix and split nodes if necessary.
+                    // The string can only be below a child which is entirely a
+                    // prefix of it.
                     let prefix = prefix(buf.load(child.string)?, string);
 
-                    if prefix == 0 {
+                    if prefix == 0 || prefix != child.string.len() {
                         return Ok(None);
                     }
 
diff --git a/crates/musli-zerocopy/src/trie/walk.rs b/crates/musli-zerocopy/src/trie/walk.rs
index 2169bba..f407241 100644
--- a/crates/musli-zerocopy/src/trie/walk.rs
+++ b/crates/musli-zerocopy/src/trie/walk.rs
@@ -90,6 +90,13 @@ where
                                     }
 
                                     if prefix != string.len() {
+                                        // The string can only be below a
+                                        // child which is entirely a prefix of
+                                        // it.
+                                        if prefix != child.string.len() {
+                                            continue;
+                                        }
+
                                         len += prefix;
                                         string = &string[prefix..];
                                         this = child.links;
-- 
2.43.0


From 4a549f105b5baa10e30fe6a27424a3ad1d6f1fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:38 +0000
Subject: [PATCH 47/67] fix: keep values without a size which are moved into
 containers alive

---
 crates/musli-core/src/alloc/system.rs | 5 ++++-
 crates/musli-core/src/alloc/vec.rs    | 5 ++++-
 crates/musli/src/alloc/slice.rs       | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/musli-core/src/alloc/system.rs b/crates/musli-core/src/alloc/system.rs
index 7b34bbc..0034329 100644
--- a/crates/musli-core/src/alloc/system.rs
+++ b/crates/musli-core/src/alloc/system.rs
@@ -1,6 +1,6 @@
 use core::alloc::Layout;
 use core::cmp;
-use core::mem::{align_of, size_of};
+use core::mem::{align_of, forget, size_of};
 use core::ptr::NonNull;
 
 use rust_alloc::alloc;
@@ -77,6 +77,9 @@ unsafe impl Allocator for System {
             unsafe {
                 raw.as_mut_ptr().write(value);
             }
+        } else {
+            // The value is now owned by the allocation.
+            forget(value);
         }
 
         Ok(raw)
diff --git a/crates/musli-core/src/alloc/vec.rs b/crates/musli-core/src/alloc/vec.rs
index 7cfad91..2b2fea2 100644
--- a/crates/musli-core/src/alloc/vec.rs
+++ b/crates/musli-core/src/alloc/vec.rs
@@ -1,7 +1,7 @@
 use core::borrow::Borrow;
 use core::cmp::Ordering;
 use core::fmt;
-use core::mem::ManuallyDrop;
+use core::mem::{forget, ManuallyDrop};
 use core::ops::{Deref, DerefMut};
 use core::ptr;
 use core::slice;
@@ -249,6 +249,9 @@ where
             unsafe {
                 self.buf.as_mut_ptr().add(self.len).write(item);
             }
+        } else {
+            // The item is now owned by the vector, which drops it.
+            forget(item);
         }
 
         self.len += 1;
diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 574b667..298fc54 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -182,6 +182,8 @@ unsafe impl<'a> Allocator for &'a Slice<'_> {
     #[inline]
     fn alloc<T>(self, value: T) -> Result<Self::Alloc<T>, AllocError> {
         if size_of::<T>() == 0 {
+            // The value is now owned by the allocation.
+            forget(value);
             return Ok(SliceAlloc::ZST);
         }
 
-- 
2.43.0


From bc494672e782ea6bff9b71159379187b27221a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 48/67] fix: report the capacity of slice allocations in
 elements

---
 crates/musli/src/alloc/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 298fc54..689156b 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -309,7 +309,8 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         // cannot be used incorrectly.
         unsafe {
             let i = &mut *internal.get();
-            i.region(region_id).capacity()
+            // NB: Only allocations of ZSTs lack an internal pointer.
+            i.region(region_id).capacity() / size_of::<T>()
         }
     }
 
-- 
2.43.0


From 48778f18fc314ccfd0954facb2f93c5508a5bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:49 +0000
Subject: [PATCH 49/67] fix: reject slice allocations whose size overflows

---
 crates/musli/src/alloc/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 689156b..dc8211e 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -320,7 +320,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         //
         // This capacity is in units of `T`, and is only ever at risk of being
         // too small if the allocation has been grown.
-        if len + additional <= self.cap {
+        if len.checked_add(additional).is_some_and(|cap| cap <= self.cap) {
             return Ok(());
         }
 
-- 
2.43.0


From bfad06fa0964fa9252aea1e08b5d228b739ca13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:49 +0000
Subject: [PATCH 50/67] fix: keep slice allocations clear of their headers

---
 crates/musli/src/alloc/slice.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index dc8211e..125ce12 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -647,18 +647,19 @@ impl Internal {
             return Some(region);
         }
 
+        let ptr = self.free.end.cast::<Header>().wrapping_sub(1);
+
+        // NB: The header must fit after the region which it describes.
+        if ptr < end.cast() || ptr >= self.free.end.cast() {
+            return None;
+        }
+
         debug_assert_eq!(
             self.free.end.align_offset(align_of::<Header>()),
             0,
             "End pointer should be aligned to header"
         );
 
-        let ptr = self.free.end.cast::<Header>().wrapping_sub(1);
-
-        if ptr < self.free.start.cast() || ptr >= self.free.end.cast() {
-            return None;
-        }
-
         let id = HeaderId::new(self.full.end.cast::<Header>().offset_from(ptr))?;
 
         ptr.write(Header {
-- 
2.43.0


From 1ccd9761dc66f55520df38ca4a2dce4b434a66cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:49 +0000
Subject: [PATCH 51/67] fix: keep the list of free headers when one is reused

---
 crates/musli/src/alloc/slice.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 125ce12..283ffc8 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -638,9 +638,11 @@ impl Internal {
     /// The caller msut ensure that there is enough space for the region and
     /// that the end pointer has been aligned to the requirements of `Header`.
     unsafe fn alloc_header(&mut self, end: *mut MaybeUninit<u8>) -> Option<Region> {
-        if let Some(region) = self.free_head.take() {
+        if let Some(region) = self.free_head {
             let mut region = self.region(region);
 
+            self.free_head = region.next.take();
+            region.prev = None;
             region.range.start = self.free.start;
             region.range.end = end;
 
-- 
2.43.0


From 05087095fdbae7ac74ac207ea8999237385752eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:14 +0000
Subject: [PATCH 52/67] fix: release gaps introduced by alignment in slice
 allocators

---
 crates/musli/src/alloc/slice.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 283ffc8..ce50b36 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -732,7 +732,13 @@ impl Internal {
             // expand.
             let mut region = self.alloc_header(aligned_start)?;
 
+            debug_assert!(
+                self.occupied.is_none(),
+                "There can only be one occupied region"
+            );
+
             self.push_back(&mut region);
+            self.occupied = Some(region.id);
         }
 
         self.free.start = aligned_start;
-- 
2.43.0


From f7b37d9186a4bd5c95af579f654fd81a3df503b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:36 +0000
Subject: [PATCH 53/67] fix: only merge slice allocations with the region which
 follows them

---
 crates/musli/src/alloc/slice.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index ce50b36..8faba6f 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -419,12 +419,19 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
                 return Err(buf);
             };
 
+            let next = i.region(next);
+
+            // Empty regions start at the same position as the region which
+            // follows them, so only a region which has room for the data is
+            // known to be the other one.
+            if other_len == 0 || next.capacity() < other_len {
+                return Err(buf);
+            }
+
             // Prevent the other buffer from being dropped, since we're
             // taking care of the allocation in here directly instead.
             forget(buf);
 
-            let next = i.region(next);
-
             let to = this.range.start.wrapping_add(this_len);
 
             // Data needs to be shuffle back to the end of the initialized
-- 
2.43.0


From d24975dd3cda45c836b2ad993f81dd81ab079cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:35 +0000
Subject: [PATCH 54/67] fix: move the decoder past untagged variants which fit

---
 crates/musli-macros/src/de.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index accf5df..cb4c1f5 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -284,11 +284,13 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
         option,
         messages,
         decoder_t,
+        skip,
         ..
     } = b.tokens;
 
     let lt = &b.p.lt;
 
+    let original_var = b.cx.ident("original");
     let output_var = b.cx.ident("output");
     let result_var = b.cx.ident("result");
     let mark_var = b.cx.ident("mark");
@@ -314,6 +316,9 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
             let decode = decode_struct(cx, b, &last.st)?;
 
             Some(quote! {
+                #context_t::restore(#ctx_var, &#mark_var);
+
+                let #decoder_var = #original_var;
                 let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
 
                 if let #result::Ok(output) = #result_var {
@@ -329,14 +334,31 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
     for v in it {
         let decode = decode_struct(cx, b, &v.st)?;
 
+        // The variant is decoded from a clone, so once it fits the original
+        // decoder has to be moved past it too. Formats which can't skip what
+        // they don't know have to decode it again.
         decode_head.push(quote! {
-            if let #option::Some(#decoder_var) = #decoder_t::try_clone(&#decoder_var) {
+            if let #option::Some(#decoder_var) = #decoder_t::try_clone(&#original_var) {
                 #context_t::restore(#ctx_var, &#mark_var);
 
                 let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
 
                 if let #result::Ok(output) = #result_var {
-                    break 'output output;
+                    #context_t::restore(#ctx_var, &#mark_var);
+
+                    if let #option::Some(#decoder_var) = #decoder_t::try_clone(&#original_var) {
+                        if let #result::Ok(false) = #skip(#decoder_var) {
+                            #context_t::restore(#ctx_var, &#mark_var);
+                            #skip(#original_var)?;
+                            break 'output output;
+                        }
+                    }
+
+                    #context_t::restore(#ctx_var, &#mark_var);
+
+                    let #decoder_var = #original_var;
+                    let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
+                    break 'output #result_var?;
                 }
             }
         });
@@ -347,6 +369,7 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
 
         let #output_var: Self = 'output: {
             let #mark_var = #context_t::mark(#ctx_var);
+            let #original_var = #decoder_var;
 
             #(#decode_head)*
             #decode_last
-- 
2.43.0


From b5a7ccd28685bb98c101deedfeb04bc204cd9ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:35 +0000
Subject: [PATCH 55/67] fix: moving JSON parsers can be cloned

---
 crates/musli/src/json/parser/mut_slice_parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index 2f60918..e3f473f 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -1,6 +1,6 @@
 use crate::alloc::Vec;
 use crate::json::error::ErrorMessage;
-use crate::json::parser::{Parser, StringReference};
+use crate::json::parser::{Parser, SliceParser, StringReference};
 use crate::reader::SliceUnderflow;
 use crate::Context;
 
@@ -34,7 +34,7 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
     where
         Self: 'this;
 
-    type TryClone = MutSliceParser<'a, 'de>;
+    type TryClone = SliceParser<'de>;
 
     #[inline]
     fn borrow_mut(&mut self) -> Self::Mut<'_> {
@@ -43,7 +43,7 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
 
     #[inline]
     fn try_clone(&self) -> Option<Self::TryClone> {
-        None
+        Some(SliceParser::new(self.slice))
     }
 
     #[inline]
-- 
2.43.0


From 2dd8d4eec59a751ab35cd72b18eeaa5804c1d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:11 +0000
Subject: [PATCH 56/67] fix: allow fixed bytes with a capacity of their size

---
 crates/musli/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/fixed.rs b/crates/musli/src/fixed.rs
index 4c227c9..7af165b 100644
--- a/crates/musli/src/fixed.rs
+++ b/crates/musli/src/fixed.rs
@@ -36,7 +36,7 @@ impl<const N: usize> FixedBytes<N> {
     #[inline]
     pub fn with_capacity(capacity: usize) -> Self {
         assert!(
-            capacity < N,
+            capacity <= N,
             "Requested capacity {capacity} is larger than {N}"
         );
         Self::new()
-- 
2.43.0


From 77754ba8f059b5d86fde0a3832af067dcccca2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:38 +0000
Subject: [PATCH 57/67] fix: don't count bytes which are read as an array twice

---
 crates/musli/src/reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/musli/src/reader.rs b/crates/musli/src/reader.rs
index ac40301..56f0b05 100644
--- a/crates/musli/src/reader.rs
+++ b/crates/musli/src/reader.rs
@@ -150,9 +150,8 @@ pub trait Reader<'de>: self::sealed::Sealed {
             }
 
             #[inline]
-            fn visit_ref(mut self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
+            fn visit_ref(mut self, _: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
                 self.0.copy_from_slice(bytes);
-                cx.advance(bytes.len());
                 Ok(self.0)
             }
         }
-- 
2.43.0


From fa12b2bc5048b29693c4169a9b517e9bd357c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:38 +0000
Subject: [PATCH 58/67] fix: count steps which there is no room for

Steps which come after one which didn't fit are capped too, since they are
left in the reverse order, a map key which can't be formatted is counted
since it is left like any other, and clearing a context resets the count.
---
 crates/musli/src/context/trace.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 6a66391..4ebe19f 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -206,16 +206,28 @@ where
     /// Push a path.
     #[inline]
     fn push_path(&self, step: Step<A>) {
+        // Once something doesn't fit, neither does anything inside of it.
+        if self.cap.get() > 0 {
+            self.push_capped();
+            return;
+        }
+
         let _access = self.access.exclusive();
 
         // SAFETY: We've checked that we have exclusive access just above.
         let path = unsafe { &mut (*self.path.get()) };
 
         if path.push(step).is_err() {
-            self.cap.set(&self.cap.get() + 1);
+            self.push_capped();
         }
     }
 
+    /// Push a path which there is no room for.
+    #[inline]
+    fn push_capped(&self) {
+        self.cap.set(self.cap.get() + 1);
+    }
+
     /// Pop the last path.
     #[inline]
     fn pop_path(&self) {
@@ -267,6 +279,7 @@ where
     #[inline]
     fn clear(&self) {
         self.mark.set(0);
+        self.cap.set(0);
         let _access = self.access.exclusive();
 
         // SAFETY: We have acquired exclusive access just above.
@@ -405,8 +418,9 @@ where
     where
         T: fmt::Display,
     {
-        if let Some(string) = self.format_string(alloc, field) {
-            self.push_path(Step::Key(string));
+        match self.format_string(alloc, field) {
+            Some(string) => self.push_path(Step::Key(string)),
+            None => self.push_capped(),
         }
     }
 
-- 
2.43.0


From a17189fa0404b5c7deb209aa3517a3e434461b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 59/67] fix: forget what abandoned untagged variants left in
 the context

Restoring a context only moved its position back, so an attempt which failed
left its errors and the steps that led to them behind, which ended up in what
was reported about an unrelated error later on.
---
 crates/musli-macros/src/de.rs               |  1 +
 crates/musli/src/context/default_context.rs |  1 +
 crates/musli/src/context/trace.rs           | 49 ++++++++++++++++++---
 3 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index cb4c1f5..d7afeab 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -374,6 +374,7 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
             #(#decode_head)*
             #decode_last
 
+            #context_t::restore(#ctx_var, &#mark_var);
             return #result::Err(#messages::untagged_mismatch(#ctx_var, #type_name));
         };
 
diff --git a/crates/musli/src/context/default_context.rs b/crates/musli/src/context/default_context.rs
index 8422a21..52f49e0 100644
--- a/crates/musli/src/context/default_context.rs
+++ b/crates/musli/src/context/default_context.rs
@@ -345,6 +345,7 @@ where
     #[inline]
     fn restore(self, mark: &Self::Mark) {
         self.trace.restore(mark);
+        self.capture.clear();
     }
 
     #[inline]
diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 4ebe19f..fdd97d8 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -270,11 +270,20 @@ where
     }
 }
 
+/// Everything a trace is restored to.
+#[doc(hidden)]
+pub struct TraceMark {
+    position: usize,
+    path: usize,
+    cap: usize,
+    errors: usize,
+}
+
 impl<A> TraceImpl<A> for WithTraceImpl<A>
 where
     A: Allocator,
 {
-    type Mark = usize;
+    type Mark = TraceMark;
 
     #[inline]
     fn clear(&self) {
@@ -296,12 +305,42 @@ where
 
     #[inline]
     fn mark(&self) -> Self::Mark {
-        self.mark.get()
+        let _access = self.access.shared();
+
+        // SAFETY: We have acquired shared access just above.
+        let (path, errors) = unsafe { ((*self.path.get()).len(), (*self.errors.get()).len()) };
+
+        TraceMark {
+            position: self.mark.get(),
+            path,
+            cap: self.cap.get(),
+            errors,
+        }
     }
 
     #[inline]
     fn restore(&self, mark: &Self::Mark) {
-        self.mark.set(*mark);
+        self.mark.set(mark.position);
+        self.cap.set(mark.cap);
+
+        let _access = self.access.exclusive();
+
+        // What is abandoned might have left steps and errors behind.
+        //
+        // SAFETY: We have acquired exclusive access just above.
+        unsafe {
+            let path = &mut *self.path.get();
+
+            while path.len() > mark.path {
+                path.pop();
+            }
+
+            let errors = &mut *self.errors.get();
+
+            while errors.len() > mark.errors {
+                errors.pop();
+            }
+        }
     }
 
     #[inline]
@@ -330,7 +369,7 @@ where
         T: fmt::Display,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.position..self.mark.get(), string);
         }
     }
 
@@ -340,7 +379,7 @@ where
         T: 'static + Send + Sync + fmt::Display + fmt::Debug,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.position..self.mark.get(), string);
         }
     }
 
-- 
2.43.0


From aad3f9ea0e92b1e694b157ed83a2815e4b58d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:09 +0000
Subject: [PATCH 60/67] fix: announce the fields of variants which can be
 skipped

---
 crates/musli-macros/src/en.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/musli-macros/src/en.rs b/crates/musli-macros/src/en.rs
index d939b31..131ec52 100644
--- a/crates/musli-macros/src/en.rs
+++ b/crates/musli-macros/src/en.rs
@@ -220,14 +220,23 @@ fn encode_default(cx: Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
             let decls = st.field_tests();
             let encoders = make_encoders(cx, b, st)?;
 
+            // This might be a variant, so the hint has to be for its body and
+            // not for the whole enum.
             let len = length_test(st.unskipped_fields());
-            let (build_hint, hint) = len.build_hint(b);
+
+            let (build_hint, hint) = match len.kind {
+                LengthTestKind::Static => len.build_hint(b),
+                LengthTestKind::Dynamic => {
+                    let hint = b.cx.ident("hint");
+                    (quote!(let #hint: usize = #len;), hint)
+                }
+            };
 
             encode = quote! {{
+                #(#decls)*
                 #build_hint
 
                 #encoder_t::encode_map_fn(#encoder_var, #hint, move |#encoder_var| {
-                    #(#decls)*
                     #(#encoders)*
                     #result::Ok(())
                 })?
-- 
2.43.0


From 04c36849ebb881abd36d49eacac4b5bd9abbbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 61/67] fix: initialize skipped fields of packed structures

---
 crates/musli-macros/src/de.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index d7afeab..07b7d45 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -1458,7 +1458,6 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
         context_t,
         decoder_t,
         pack_decoder_t,
-        option,
         ..
     } = b.tokens;
 
@@ -1472,23 +1471,14 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
         decode_path: (_, decode_path),
         member,
         ..
-    } in st.unskipped_fields()
+    } in &st.all_fields
     {
         let field_decoder = &field_decoder;
 
         if let Some(init) = f.init_default(b) {
             let value: Box<dyn Fn(&syn::Ident, &mut TokenStream)> =
-                Box::new(move |ident: &syn::Ident, tokens: &mut TokenStream| {
-                    tokens.extend(quote! {
-                        #member: {
-                            let #field_decoder = #pack_decoder_t::decode_next(#ident)?;
-
-                            match #decoder_t::decode_option(#field_decoder)? {
-                                #option::Some(#field_decoder) => #decode_path(#field_decoder)?,
-                                #option::None => #init,
-                            }
-                        }
-                    })
+                Box::new(move |_: &syn::Ident, tokens: &mut TokenStream| {
+                    tokens.extend(quote!(#member: #init))
                 });
 
             assign.push(value);
-- 
2.43.0


From a22bb312222286403b9d648d5afd05e0a124a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:13 +0000
Subject: [PATCH 62/67] fix: fall back to default variants of enums which are
 tagged by a field

---
 crates/musli-macros/src/de.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index 07b7d45..f47dac0 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -406,8 +406,14 @@ fn decode_default_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<To
     let variant_tag_var = b.cx.ident("variant_tag");
     let tag_static = b.cx.ident("TAG");
 
-    let (decode_name, output_enum, name_type, output_arms, fallback) =
-        decode_variant_name(cx, b, en, &variant_decoder_var, &variant_tag_var)?;
+    let (decode_name, output_enum, name_type, output_arms, fallback) = decode_variant_name(
+        cx,
+        b,
+        en,
+        &variant_decoder_var,
+        &variant_tag_var,
+        Some(quote!(#variant_decoder_t::decode_value(#variant_decoder_var)?)),
+    )?;
 
     let arms = output_arms.iter().flat_map(|(v, pat, tag_value)| {
         let name = v.st.name.value;
@@ -526,7 +532,7 @@ fn decode_internal(
     let tag_static = b.cx.ident("TAG");
 
     let (decode_name, output_enum, name_type, output_arms, fallback) =
-        decode_variant_name(cx, b, en, &variant_decoder_var, &variant_tag_var)?;
+        decode_variant_name(cx, b, en, &variant_decoder_var, &variant_tag_var, None)?;
 
     let tag_value = tag.value;
 
@@ -726,8 +732,14 @@ fn decode_adjacent(
 
     let type_name = en.name.value;
 
-    let (decode_name, output_enum, name_type, output_arms, fallback) =
-        decode_variant_name(cx, b, en, &variant_decoder_var, &variant_tag_var)?;
+    let (decode_name, output_enum, name_type, output_arms, fallback) = decode_variant_name(
+        cx,
+        b,
+        en,
+        &variant_decoder_var,
+        &variant_tag_var,
+        Some(quote!(#body_decoder_var)),
+    )?;
 
     let tag_value = tag.value;
     let content_value = content.value;
@@ -907,6 +919,7 @@ fn decode_variant_name<'a>(
     en: &'a Enum<'a>,
     variant_decoder_var: &syn::Ident,
     variant_tag_var: &syn::Ident,
+    fallback_decoder: Option<TokenStream>,
 ) -> Result<(
     TokenStream,
     TokenStream,
@@ -923,7 +936,6 @@ fn decode_variant_name<'a>(
         result,
         messages,
         skip,
-        variant_decoder_t,
         ..
     } = b.tokens;
 
@@ -938,11 +950,16 @@ fn decode_variant_name<'a>(
 
     let mut fallback = match en.fallback {
         Some(ident) => {
-            quote! {{
-                if #skip(#variant_decoder_t::decode_value(#variant_decoder_var)?)? {
-                    return #result::Err(#messages::invalid_variant_tag(#ctx_var, #type_name, &#variant_tag_var));
+            let skip_fallback = fallback_decoder.map(|fallback_decoder| {
+                quote! {
+                    if #skip(#fallback_decoder)? {
+                        return #result::Err(#messages::invalid_variant_tag(#ctx_var, #type_name, &#variant_tag_var));
+                    }
                 }
+            });
 
+            quote! {{
+                #skip_fallback
                 Self::#ident {}
             }}
         }
-- 
2.43.0


From 33d675814d3c0192c569df1b97060b50a747bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 63/67] fix: account for numerical JSON keys once

---
 crates/musli/src/json/de/key_decoder.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/musli/src/json/de/key_decoder.rs b/crates/musli/src/json/de/key_decoder.rs
index 6b9c51b..c9bc692 100644
--- a/crates/musli/src/json/de/key_decoder.rs
+++ b/crates/musli/src/json/de/key_decoder.rs
@@ -38,10 +38,26 @@ where
     {
         let mut scratch = Vec::new_in(self.cx.alloc());
 
-        match self.parser.parse_string(self.cx, true, &mut scratch)? {
-            StringReference::Borrowed(string) => visitor.visit_borrowed(self.cx, string.as_bytes()),
-            StringReference::Scratch(string) => visitor.visit_ref(self.cx, string.as_bytes()),
-        }
+        self.parser.skip_whitespace(self.cx);
+
+        let start = self.cx.mark();
+        let string = self.parser.parse_string(self.cx, true, &mut scratch)?;
+        let end = self.cx.mark();
+
+        // What is inside of the quotes is parsed once more, so it has to be
+        // kept from being accounted for twice.
+        self.cx.restore(&start);
+        self.cx.advance(1);
+
+        let output = match string {
+            StringReference::Borrowed(string) => {
+                visitor.visit_borrowed(self.cx, string.as_bytes())?
+            }
+            StringReference::Scratch(string) => visitor.visit_ref(self.cx, string.as_bytes())?,
+        };
+
+        self.cx.restore(&end);
+        Ok(output)
     }
 }
 
-- 
2.43.0


From f0f3dd14e5e15224c874a4d51e57f1f1c93ddddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 64/67] fix: account for packs which are buffered once

---
 crates/musli/src/value/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index ab574fc..8c005ed 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -328,7 +328,11 @@ where
         F: FnOnce(&mut Self::DecodePack) -> Result<O, Self::Error>,
     {
         ensure!(self, hint, ExpectedPack(hint), Value::Bytes(pack) => {
-            f(&mut StorageDecoder::new(self.cx, SliceReader::new(pack)))
+            // What is buffered has already been accounted for.
+            let mark = self.cx.mark();
+            let output = f(&mut StorageDecoder::new(self.cx, SliceReader::new(pack)))?;
+            self.cx.restore(&mark);
+            Ok(output)
         })
     }
 
-- 
2.43.0


From eb6d768c7d4c00d7b525d62739e95681dbb9f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:05 +0000
Subject: [PATCH 65/67] fix: skip raw identifiers in variants

---
 crates/musli-macros/src/internals/build.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-macros/src/internals/build.rs b/crates/musli-macros/src/internals/build.rs
index 838805b..f911587 100644
--- a/crates/musli-macros/src/internals/build.rs
+++ b/crates/musli-macros/src/internals/build.rs
@@ -644,7 +644,7 @@ fn setup_field<'a>(
                     access = syn::Expr::Path(syn::ExprPath {
                         attrs: Vec::new(),
                         qself: None,
-                        path: syn::Path::from(quote::format_ident!("skipped_{ident}")),
+                        path: syn::Path::from(quote::format_ident!("skipped_{}", ident)),
                     });
                 };
 
-- 
2.43.0


From b50d26ec3860918094f4ca409c0e7295626eccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:45 +0000
Subject: [PATCH 66/67] fix: encode names of bytes as the bytes they are
 decoded as

---
 crates/musli-core/src/lib.rs                | 22 +++++++++++++++++++++
 crates/musli-macros/src/en.rs               | 16 +++++++++------
 crates/musli-macros/src/expander.rs         | 12 +++++++++++
 crates/musli-macros/src/internals/tokens.rs |  2 ++
 4 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/crates/musli-core/src/lib.rs b/crates/musli-core/src/lib.rs
index 4ce02c2..e50b457 100644
--- a/crates/musli-core/src/lib.rs
+++ b/crates/musli-core/src/lib.rs
@@ -77,6 +77,28 @@ pub mod __priv {
         ::core::default::Default::default()
     }
 
+    /// A name which is decoded as unsized bytes.
+    pub struct NameBytes<'a>(pub &'a [u8]);
+
+    impl<M> Encode<M> for NameBytes<'_> {
+        type Encode = Self;
+
+        const IS_BITWISE_ENCODE: bool = false;
+
+        #[inline]
+        fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
+        where
+            E: Encoder<Mode = M>,
+        {
+            encoder.encode_bytes(self.0)
+        }
+
+        #[inline]
+        fn as_encode(&self) -> &Self::Encode {
+            self
+        }
+    }
+
     /// Note that this returns `true` if skipping was unsupported.
     #[inline]
     pub fn skip<'de, D>(decoder: D) -> Result<bool, D::Error>
diff --git a/crates/musli-macros/src/en.rs b/crates/musli-macros/src/en.rs
index 131ec52..043d0c7 100644
--- a/crates/musli-macros/src/en.rs
+++ b/crates/musli-macros/src/en.rs
@@ -311,7 +311,7 @@ fn make_encoders(cx: Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<Vec<Token
     let field_encoder_var = b.cx.ident("field_encoder");
     let value_encoder_var = b.cx.ident("value_encoder");
     let field_name_static = b.cx.ident("FIELD_NAME");
-    let field_name_expr = st.name.expr(field_name_static.clone());
+    let field_name_expr = st.name.encode_expr(field_name_static.clone(), b.tokens);
 
     let mut encoders = Vec::with_capacity(st.all_fields.len());
 
@@ -533,7 +533,7 @@ fn encode_empty_variant(
 
     let name_static = b.cx.ident("NAME");
 
-    let name_expr = en.name.expr(name_static.clone());
+    let name_expr = en.name.encode_expr(name_static.clone(), b.tokens);
 
     let encode = quote! {{
         static #name_static: #name_type = #name;
@@ -565,7 +565,7 @@ fn encode_tagged_variant(
     let variant_encoder = b.cx.ident("variant_encoder");
     let name_static = b.cx.ident("NAME");
     let data_encoder = b.cx.ident("data_encoder");
-    let name_expr = en.name.expr(name_static.clone());
+    let name_expr = en.name.encode_expr(name_static.clone(), b.tokens);
 
     let encode = encode_default(cx.with_encoder(&data_encoder), b, &v.st)?;
     let size_hint = quote!(#option::Some(1));
@@ -614,6 +614,8 @@ fn encode_internal_variant(
 
     let tag_static = b.cx.ident("TAG");
     let name_static = b.cx.ident("NAME");
+    let tag_expr = tag.encode_expr(tag_static.clone(), b.tokens);
+    let name_expr = en.name.encode_expr(name_static.clone(), b.tokens);
 
     let encode;
     let size_hint;
@@ -695,7 +697,7 @@ fn encode_internal_variant(
             #encoder_t::encode_map_fn(#encoder_var, #hint, move |#encoder_var| {
                 static #tag_static: #tag_type = #tag_value;
                 static #name_static: #name_type = #name;
-                #map_encoder_t::insert_entry(#encoder_var, #tag_static, #name_static)?;
+                #map_encoder_t::insert_entry(#encoder_var, #tag_expr, #name_expr)?;
                 #inner_encode
                 #result::Ok(())
             })?
@@ -739,8 +741,10 @@ fn encode_adjacent_variant(
 
     let tag_value = tag.value;
     let tag_type = tag.ty();
+    let tag_expr = tag.encode_expr(tag_static.clone(), b.tokens);
+    let name_expr = en.name.encode_expr(name_static.clone(), b.tokens);
     let content_value = content.value;
-    let content_static_expr = content.expr(content_static.clone());
+    let content_static_expr = content.encode_expr(content_static.clone(), b.tokens);
     let content_type = content.ty();
 
     let inner_encode = encode_default(cx, b, &v.st)?;
@@ -753,7 +757,7 @@ fn encode_adjacent_variant(
             static #content_static: #content_type = #content_value;
             static #name_static: #name_type = #name;
 
-            #map_encoder_t::insert_entry(#adjacent_encoder_var, #tag_static, #name_static)?;
+            #map_encoder_t::insert_entry(#adjacent_encoder_var, #tag_expr, #name_expr)?;
 
             #map_encoder_t::encode_entry_fn(#adjacent_encoder_var, move |#pair_encoder_var| {
                 let #content_tag = #entry_encoder_t::encode_key(#pair_encoder_var)?;
diff --git a/crates/musli-macros/src/expander.rs b/crates/musli-macros/src/expander.rs
index 5bc75f4..61f6bed 100644
--- a/crates/musli-macros/src/expander.rs
+++ b/crates/musli-macros/src/expander.rs
@@ -40,6 +40,18 @@ impl<T> Name<'_, T> {
         }
     }
 
+    /// The expression used when encoding the name.
+    pub(crate) fn encode_expr(&self, ident: syn::Ident, tokens: &Tokens<'_>) -> syn::Expr {
+        match (self.method, &self.ty) {
+            // Slices are decoded as unsized bytes, but encode as a sequence.
+            (NameMethod::Unsized(UnsizedMethod::Bytes), syn::Type::Slice(..)) => {
+                let Tokens { name_bytes, .. } = tokens;
+                syn::parse_quote!(&#name_bytes(#ident))
+            }
+            _ => self.expr(ident),
+        }
+    }
+
     pub(crate) fn ty(&self) -> Cow<'_, syn::Type> {
         match self.method {
             NameMethod::Unsized(..) => {
diff --git a/crates/musli-macros/src/internals/tokens.rs b/crates/musli-macros/src/internals/tokens.rs
index e4b28e7..3539cfb 100644
--- a/crates/musli-macros/src/internals/tokens.rs
+++ b/crates/musli-macros/src/internals/tokens.rs
@@ -40,6 +40,7 @@ pub(crate) struct Tokens<'a> {
     pub(crate) map_encoder_t: Import<'a>,
     pub(crate) map_hint: Import<'a>,
     pub(crate) messages: Import<'a>,
+    pub(crate) name_bytes: Import<'a>,
     pub(crate) needs_drop: Import<'a>,
     pub(crate) offset_of: Import<'a>,
     pub(crate) option: Import<'a>,
@@ -81,6 +82,7 @@ impl<'a> Tokens<'a> {
             map_encoder_t: Import(prefix, "MapEncoder"),
             map_hint: Import(prefix, "map_hint"),
             messages: Import(prefix, "m"),
+            name_bytes: Import(prefix, "NameBytes"),
             needs_drop: Import(prefix, "needs_drop"),
             offset_of: Import(prefix, "offset_of"),
             option: Import(prefix, "Option"),
-- 
2.43.0


From 17a7f2ba9ed96f8987b5eefe8199ffb66b8bfc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:11 +0000
Subject: [PATCH 67/67] fix: enums with variants named by bytes did not compile

---
 crates/musli-macros/src/de.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index f47dac0..ecedd62 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -1014,10 +1014,20 @@ fn decode_variant_name<'a>(
                 quote!(#output_type::#variant => #fmt::Debug::fmt(&#name, f))
             });
 
+            let name_static = b.cx.ident("NAME");
+            let static_type = en.name.ty();
+            let formatted_name = en.name.name_format(&name_static);
+
             let fmt_display = variants.iter().map(|o| {
                 let variant = &o.variant;
                 let name = o.name;
-                quote!(#output_type::#variant => #fmt::Display::fmt(&#name, f))
+
+                quote! {
+                    #output_type::#variant => {
+                        static #name_static: #static_type = #name;
+                        #fmt::Display::fmt(&#formatted_name, f)
+                    }
+                }
             });
 
             let variants = variants.iter().map(|o| &o.variant);
-- 
2.43.0

