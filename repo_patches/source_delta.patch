From fdc03bb66235457a0886a26f0ad17b7f4373dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 01/10] fix: decode surrogate pair escapes in JSON strings

---
 ser-write-json/src/de.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 6fb1043..e0ee1f6 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -695,6 +695,21 @@ impl<'de, P> Deserializer<'de, P> {
         .map_err(From::from)
     }
 
+    /// Parse a low surrogate escape: `\uDC00`-`\uDFFF` at the given input index.
+    fn parse_low_surrogate(&self, index: usize) -> Result<u32> {
+        for (pos, expected) in (index..).zip([RS, UU]) {
+            if *self.input.get(pos).ok_or(Error::UnexpectedEof)? != expected {
+                return Err(Error::InvalidUnicodeCodePoint)
+            }
+        }
+        let code = self.input.get(index+2..index+6).ok_or(Error::UnexpectedEof)?
+                   .try_into().unwrap();
+        match parse_uuuu(code).ok_or(Error::InvalidEscapeSequence)? {
+            code@(0xDC00..=0xDFFF) => Ok(code),
+            _ => Err(Error::InvalidUnicodeCodePoint)
+        }
+    }
+
     /// Parse a string until a closing `'"'` is found.
     /// Return decoded in-place string data on success.
     ///
@@ -743,9 +758,17 @@ impl<'de, P> Deserializer<'de, P> {
                                 let code = self.input.get(index+1..index+5).ok_or(Error::UnexpectedEof)?
                                            .try_into().unwrap();
                                 let code = parse_uuuu(code).ok_or(Error::InvalidEscapeSequence)?;
-                                let ch = char::from_u32(code).ok_or(Error::InvalidUnicodeCodePoint)?;
-                                dest += ch.encode_utf8(&mut self.input[dest..]).len();
                                 index += 5;
+                                let ch = match code {
+                                    /* UTF-16 high surrogate, must be followed by \uDC00-\uDFFF */
+                                    0xD800..=0xDBFF => {
+                                        let low = self.parse_low_surrogate(index)?;
+                                        index += 6;
+                                        char::from_u32(0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00))
+                                    }
+                                    _ => char::from_u32(code)
+                                }.ok_or(Error::InvalidUnicodeCodePoint)?;
+                                dest += ch.encode_utf8(&mut self.input[dest..]).len();
                                 start = index;
                             }
                             Some(..) => break Err(Error::InvalidEscapeSequence),
-- 
2.43.0


From f00d745fd02e18e5ac13bda1528c9386a402fb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 02/10] fix: deserialize newtype keys of JSON objects

---
 ser-write-json/src/de.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index e0ee1f6..e5166d0 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -1466,9 +1466,19 @@ impl<'de, 'a, P> de::Deserializer<'de> for MapKey<'a, 'de, P>
         visitor.visit_enum(UnitVariantAccess { de: self.de })
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value>
+        where V: Visitor<'de>
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     forward_to_deserialize_any! {
         i128 u128 f32 f64 string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
+        bytes byte_buf option unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From 2cc69aaf5ab181ea3e78b04cbad6f31f01d5c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 03/10] fix: self-describing JSON integers wider than 64 bits
 decode as floats

---
 ser-write-json/src/de.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index e5166d0..8f78867 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -604,10 +604,17 @@ impl<'de, P> Deserializer<'de, P> {
             AnyNumber::Float(AnyFloat::from_str(s)?)
         }
         else if is_negative {
-            AnyNumber::NegInt(i64::from_str(s)?)
+            match i64::from_str(s) {
+                Ok(n) => AnyNumber::NegInt(n),
+                /* an integer that does not fit in 64 bits */
+                Err(_) => AnyNumber::Float(AnyFloat::from_str(s)?)
+            }
         }
         else {
-            AnyNumber::PosInt(u64::from_str(s)?)
+            match u64::from_str(s) {
+                Ok(n) => AnyNumber::PosInt(n),
+                Err(_) => AnyNumber::Float(AnyFloat::from_str(s)?)
+            }
         };
         self.eat_some(input.len());
         Ok(num)
-- 
2.43.0


From a726902e1e86d0c1f54683d466de77c05859047b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 04/10] fix: detect a display text shorter than announced in
 no-alloc MessagePack collect_str

---
 ser-write-msgpack/src/ser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ser-write-msgpack/src/ser.rs b/ser-write-msgpack/src/ser.rs
index 650c822..95157de 100644
--- a/ser-write-msgpack/src/ser.rs
+++ b/ser-write-msgpack/src/ser.rs
@@ -569,7 +569,11 @@ impl<'a, W: SerWrite> ser::Serializer for &'a mut $serializer<W>
         let StringLenCounter(len) = col;
         write_str_len(&mut self.output, len)?;
         let mut col = StringCollector::new(len, &mut self.output);
-        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)
+        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
+        if col.len != 0 { /* the text is shorter than announced */
+            return Err(Error::FormatError)
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 178c124385f2040460cebfee3b1e4fc5ecd02f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 05/10] fix: skip nested MessagePack content without recursion

---
 ser-write-msgpack/src/de.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index f906d6b..442e277 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -357,6 +357,17 @@ impl<'de> Deserializer<'de> {
     /// Return `Ok(())` on success or `Err(Error::UnexpectedEof)` if there was not enough data
     /// to fully decode a MessagePack item.
     pub fn eat_message(&mut self) -> Result<()> {
+        // nested messages are counted instead of recursed into
+        let mut pending = 1u64;
+        while pending != 0 {
+            pending = (pending - 1).saturating_add(self.eat_header()?);
+        }
+        Ok(())
+    }
+
+    /// Eat a single message but the content of arrays and maps.
+    /// Return the number of messages that content consists of.
+    fn eat_header(&mut self) -> Result<u64> {
         use MsgType::*;
         let mtyp = match self.fetch()? {
             NIL|
@@ -402,25 +413,10 @@ impl<'de> Deserializer<'de> {
                 }
                 self.index = index;
             }
-            Array(len) => self.eat_seq_items(len)?,
-            Map(len) => self.eat_map_items(len)?
+            Array(len) => return Ok(len as u64),
+            Map(len) => return Ok((len as u64).saturating_mul(2))
         }
-        Ok(())
-    }
-
-    fn eat_seq_items(&mut self, len: usize) -> Result<()> {
-        for _ in 0..len {
-            self.eat_message()?;
-        }
-        Ok(())
-    }
-
-    fn eat_map_items(&mut self, len: usize) -> Result<()> {
-        for _ in 0..len {
-            self.eat_message()?;
-            self.eat_message()?;
-        }
-        Ok(())
+        Ok(0)
     }
 
 }
-- 
2.43.0


From 262f6756d3080b7b6755d3bb5a8ce94cd76c7a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 06/10] fix: accept every map width for MessagePack enums and
 64-bit identifiers

---
 ser-write-msgpack/src/de.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index 442e277..aec5faa 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -744,13 +744,25 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         where V: Visitor<'de>
     {
         const FIXMAP_1: u8 = FIXMAP|1;
-        match self.peek()? {
+        let len: u32 = match self.peek()? {
             FIXMAP_1 => {
                 self.eat_some(1);
-                visitor.visit_enum(VariantAccess { de: self })
+                1
+            }
+            MAP_16 => {
+                self.eat_some(1);
+                self.fetch_u16()?.into()
             }
-            _ => visitor.visit_enum(UnitVariantAccess { de: self })
+            MAP_32 => {
+                self.eat_some(1);
+                self.fetch_u32()?
+            }
+            _ => return visitor.visit_enum(UnitVariantAccess { de: self })
+        };
+        if len != 1 {
+            return Err(Error::ExpectedIdentifier)
         }
+        visitor.visit_enum(VariantAccess { de: self })
     }
 
     fn deserialize_identifier<V>(self, visitor: V) -> Result<V::Value>
@@ -761,6 +773,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
             UINT_8|
             UINT_16|
             UINT_32 => self.deserialize_u32(visitor),
+            UINT_64 => self.deserialize_u64(visitor),
             FIXSTR..=FIXSTR_MAX|
             STR_8|
             STR_16|
-- 
2.43.0


From 159e84f7cff2f94009c3077d7a138d638cf44adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 07/10] fix: no panic in JSON eat_whitespace and end past the
 end of input

---
 ser-write-json/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 8f78867..5e37ccd 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -423,7 +423,7 @@ impl<'de, P> Deserializer<'de, P> {
     /// are no more unparsed characters remaining in the input slice.
     pub fn eat_whitespace(&mut self) -> Result<u8> {
         let index = self.index;
-        self.input[index..].iter()
+        self.input.get(index..).ok_or(Error::UnexpectedEof)?.iter()
         .position(|&b| !matches!(b, SP|T_|N_|R_))
         .map(|pos| {
             self.index = index + pos;
-- 
2.43.0


From 3d70dce178a4d13bd3e374bbe979852e66ab8fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 08/10] fix: report a failing Display as FormatError in
 MessagePack collect_str instead of panicking

---
 ser-write-msgpack/src/ser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ser-write-msgpack/src/ser.rs b/ser-write-msgpack/src/ser.rs
index 95157de..582c1da 100644
--- a/ser-write-msgpack/src/ser.rs
+++ b/ser-write-msgpack/src/ser.rs
@@ -555,7 +555,10 @@ impl<'a, W: SerWrite> ser::Serializer for &'a mut $serializer<W>
     fn collect_str<T>(self, value: &T) -> Result<Self::Ok, W::Error>
         where T: fmt::Display + ?Sized
     {
-        self.serialize_str(&value.to_string())
+        // `to_string` panics if the formatting fails
+        let mut text = String::new();
+        fmt::write(&mut text, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
+        self.serialize_str(&text)
     }
 
     #[cfg(not(any(feature = "std", feature = "alloc")))]
-- 
2.43.0


From c76de617927ea528eee66d619cc16c5952966a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:39 +0000
Subject: [PATCH 09/10] fix: no wrap-around of declared MessagePack lengths on
 32-bit targets

---
 ser-write-msgpack/src/de.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index aec5faa..755b625 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -384,7 +384,7 @@ impl<'de> Deserializer<'de> {
             BIN_32|STR_32 => Single(self.fetch_u32()?.try_into()?),
             EXT_8 => Single(1usize + usize::from(self.fetch_u8()?)),
             EXT_16 => Single(1usize + usize::from(self.fetch_u16()?)),
-            EXT_32 => Single(1usize + usize::try_from(self.fetch_u32()?)?),
+            EXT_32 => Single(usize::try_from(self.fetch_u32()?)?.checked_add(1).ok_or(Error::UnexpectedEof)?),
             FLOAT_32 => Single(4),
             FLOAT_64 => Single(8),
             UINT_8 => Single(1),
@@ -407,11 +407,11 @@ impl<'de> Deserializer<'de> {
         };
         match mtyp {
             Single(len) => {
-                let index = self.index + len;
-                if index > self.input.len() {
-                    return Err(Error::UnexpectedEof)
+                /* a declared length may exceed the address space */
+                match self.index.checked_add(len) {
+                    Some(index) if index <= self.input.len() => self.index = index,
+                    _ => return Err(Error::UnexpectedEof)
                 }
-                self.index = index;
             }
             Array(len) => return Ok(len as u64),
             Map(len) => return Ok((len as u64).saturating_mul(2))
-- 
2.43.0


From 8123e14d63ed1052cdcacd4f047f88a9e0d605cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:00 +0000
Subject: [PATCH 10/10] fix: no wrap-around of the base-64 length of long texts
 on 32-bit targets

---
 ser-write-json/src/base64.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ser-write-json/src/base64.rs b/ser-write-json/src/base64.rs
index b376cd8..aa3b3e4 100644
--- a/ser-write-json/src/base64.rs
+++ b/ser-write-json/src/base64.rs
@@ -126,7 +126,7 @@ pub fn decode(slice: &mut[u8]) -> (usize, usize) {
     }
     match chunks.remainder().iter().try_fold(1, decode_cell) {
         /* no tail */
-        Ok(1) => (dcount, dcount * 4 / 3),
+        Ok(1) => (dcount, dcount / 3 * 4),
         /* some tail */
         Ok(packed)|Err(packed) => handle_tail(dcount, packed, dest)
     }
@@ -139,7 +139,7 @@ fn handle_tail<'a, I>(mut dcount: usize, mut packed: u32, mut dest: I) -> (usize
     let leftovers = (31 - packed.leading_zeros()) / 6;
     packed <<= leftovers*2;
     let mut tail_dcount = leftovers.saturating_sub(1);
-    let ecount = dcount * 4 / 3 + leftovers as usize;
+    let ecount = dcount / 3 * 4 + leftovers as usize;
     dcount += tail_dcount as usize;
     while tail_dcount != 0 {
         dest.next().unwrap().set((packed >> (tail_dcount * 8)) as u8);
-- 
2.43.0

