From 4fc0387520728cbd013a6810e7d9f3638c186d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 01/15] fix: treat an inline return value as a Return category
 flag

The Return category mask listed RETURN_VALUE_IN_ARRAY twice and left out
RETURN_VALUE_INLINE, so flags combining it with another Return flag, or with
the Exception or Signature category, were accepted.
---
 src/record/message_flags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/record/message_flags.rs b/src/record/message_flags.rs
index d4ba481..3cb0b8c 100644
--- a/src/record/message_flags.rs
+++ b/src/record/message_flags.rs
@@ -81,7 +81,7 @@ impl MessageFlags {
     let return_flags = flags.intersection(
       Self::NO_RETURN_VALUE
         .union(Self::RETURN_VALUE_VOID)
-        .union(Self::RETURN_VALUE_IN_ARRAY)
+        .union(Self::RETURN_VALUE_INLINE)
         .union(Self::RETURN_VALUE_IN_ARRAY),
     );
     let signature_flags = flags.intersection(Self::METHOD_SIGNATURE_IN_ARRAY);
-- 
2.43.0


From 4ac9235370b739734acd5bf93ddd7b0251f8ff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 02/15] fix: register classes so that ClassWithId can refer to
 them

Class metadata was looked up in, but never added to, the map of known
classes, so every ClassWithId record was rejected with a missing metadata
ID and duplicate class object IDs were never noticed.
---
 src/binary_parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index d0cb273..56672d0 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -254,6 +254,9 @@ impl<'i> BinaryParser<'i> {
       return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
     }
 
+    // The members may already contain a `ClassWithId` which refers to this class.
+    self.classes.insert(object_id, class.clone());
+
     let (input, (class_info, library, member_references)) = match class {
       Class::ClassWithMembers(ref class) => {
         let library = if let Some(library) = self.binary_libraries.get(&class.library_id()) {
@@ -602,7 +605,9 @@ impl<'i> BinaryParser<'i> {
     let (mut input, method_call_or_return) =
       opt(|input| self.parse_method_call_or_return(input, header.root_id)).parse(input)?;
 
-    (input, ()) = self.parse_referenceables(input)?;
+    if method_call_or_return.is_some() {
+      (input, ()) = self.parse_referenceables(input)?;
+    }
 
     let (input, MessageEnd) = MessageEnd::parse(input)?;
 
-- 
2.43.0


From 29ed0c962250be62cc259830c0e559b1e144de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 03/15] fix: allow a BinaryLibrary before an array or method
 record

A BinaryLibrary record which did not belong to a class was parsed once per
grammar alternative, and every time but the first it was rejected as
a duplicate of itself.
---
 src/binary_parser/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 56672d0..651aad3 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -81,8 +81,12 @@ impl<'i> BinaryParser<'i> {
     if let Some(binary_library) = binary_library {
       let library_id = binary_library.library_id();
 
-      if self.binary_libraries.insert(library_id, binary_library.library_name).is_some() {
-        return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
+      // Alternatives which start with the same record parse it again after backtracking, this is not a duplicate.
+      let library_name = binary_library.library_name.as_str();
+      if let Some(previous) = self.binary_libraries.insert(library_id, binary_library.library_name) {
+        if !std::ptr::eq(previous.as_str(), library_name) {
+          return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
+        }
       }
     }
 
-- 
2.43.0


From 1935e157f2bde7fe61636d09ba2310348718f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 04/15] fix: resolve repeated references to strings

A string in place of a member was not remembered, and a string which was
referred to was forgotten after the first reference, so a message in which
a string occurs more than once was rejected.
---
 src/binary_parser/mod.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 651aad3..552c06e 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -108,9 +108,7 @@ impl<'i> BinaryParser<'i> {
           |primitive| ValueOrRef::Value(primitive.into_value()),
         )
         .parse(input)?,
-        (BinaryType::String, None) => {
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))).parse(input)?
-        },
+        (BinaryType::String, None) => self.parse_object_string(input)?,
         (BinaryType::Object, None) => return self.parse_member_reference(input, None),
         (BinaryType::SystemClass, Some(AdditionalTypeInfo::SystemClass(class_name))) => {
           if let Ok((input, (_, object))) = self.parse_classes(input) {
@@ -144,7 +142,7 @@ impl<'i> BinaryParser<'i> {
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
         (BinaryType::StringArray, None) => alt((
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+          |input| self.parse_object_string(input),
           map(
             |input| MemberReference::parse(input),
             |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)),
@@ -159,19 +157,27 @@ impl<'i> BinaryParser<'i> {
         _ => unreachable!(),
       }
     } else {
-      alt((
+      alt_mut!(input =>
         map(|input| MemberPrimitiveTyped::parse(input), |primitive| ValueOrRef::Value(primitive.into_value())),
         map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
-        map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+        |input| self.parse_object_string(input),
         Self::parse_null_object,
         map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Value(Value::Object(object))),
-      ))
-      .parse(input)?
+      )?
     };
 
     Ok((input, object))
   }
 
+  /// 2.5.7 `BinaryObjectString` in place of a member, which members following it can refer to
+  fn parse_object_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
+    let (input, string) = BinaryObjectString::parse(input)?;
+
+    self.objects.insert(string.object_id(), Value::String(string.as_str()));
+
+    Ok((input, ValueOrRef::Value(Value::String(string.as_str()))))
+  }
+
   fn parse_members_with_type_info(
     &mut self,
     mut input: &'i [u8],
@@ -190,6 +196,14 @@ impl<'i> BinaryParser<'i> {
     Ok((input, member_references))
   }
 
+  /// Takes an already parsed object. A string stays available, since any number of members can refer to it.
+  fn take_object(&mut self, id: RefId) -> Option<Value<'i>> {
+    match self.objects.get(&id.0) {
+      Some(Value::String(string)) => Some(Value::String(string)),
+      _ => self.objects.remove(&id.0),
+    }
+  }
+
   /// Resolves members from already parsed objects or by parsing missing members.
   fn resolve_members(
     &mut self,
@@ -209,13 +223,13 @@ impl<'i> BinaryParser<'i> {
           }
         },
         ValueOrRef::Ref(id) => {
-          if let Some(value) = self.objects.remove(&id.0) {
+          if let Some(value) = self.take_object(id) {
             members2.push(value);
           } else {
             let member2;
             (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;
 
-            if let Some(value) = self.objects.remove(&member2.0) {
+            if let Some(value) = self.take_object(member2) {
               members2.push(value);
             } else {
               return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
-- 
2.43.0


From 5517b5255ef5c110fcd5354000a9397a7db33493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 05/15] fix: accept references and nulls for members of every
 reference type

Members declared as String did not accept references and nulls, members
declared as SystemClass or Class did not accept references, and members
declared as PrimitiveArray did not accept nulls, although the grammar
allows all of these.
---
 src/binary_parser/mod.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 552c06e..0f16e8a 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -108,7 +108,9 @@ impl<'i> BinaryParser<'i> {
           |primitive| ValueOrRef::Value(primitive.into_value()),
         )
         .parse(input)?,
-        (BinaryType::String, None) => self.parse_object_string(input)?,
+        (BinaryType::String, None) => {
+          alt((|input| self.parse_object_string(input), Self::parse_reference_or_null)).parse(input)?
+        },
         (BinaryType::Object, None) => return self.parse_member_reference(input, None),
         (BinaryType::SystemClass, Some(AdditionalTypeInfo::SystemClass(class_name))) => {
           if let Ok((input, (_, object))) = self.parse_classes(input) {
@@ -118,7 +120,7 @@ impl<'i> BinaryParser<'i> {
 
             (input, ValueOrRef::Value(Value::Object(object)))
           } else {
-            Self::parse_null_object(input)?
+            Self::parse_reference_or_null(input)?
           }
         },
         (BinaryType::Class, Some(AdditionalTypeInfo::Class(class_type_info))) => {
@@ -137,22 +139,15 @@ impl<'i> BinaryParser<'i> {
 
             (input, ValueOrRef::Value(Value::Object(object)))
           } else {
-            Self::parse_null_object(input)?
+            Self::parse_reference_or_null(input)?
           }
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
-        (BinaryType::StringArray, None) => alt((
-          |input| self.parse_object_string(input),
-          map(
-            |input| MemberReference::parse(input),
-            |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)),
-          ),
-          Self::parse_null_object,
-        ))
-        .parse(input)?,
+        (BinaryType::StringArray, None) => {
+          alt((|input| self.parse_object_string(input), Self::parse_reference_or_null)).parse(input)?
+        },
         (BinaryType::PrimitiveArray, Some(AdditionalTypeInfo::Primitive(_primitive_type))) => {
-          map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)))
-            .parse(input)?
+          Self::parse_reference_or_null(input)?
         },
         _ => unreachable!(),
       }
@@ -482,6 +477,15 @@ impl<'i> BinaryParser<'i> {
     .parse(input)
   }
 
+  /// 2.7 Binary Record Grammar - `MemberReference/nullObject`
+  fn parse_reference_or_null(input: &'i [u8]) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
+    alt((
+      map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
+      Self::parse_null_object,
+    ))
+    .parse(input)
+  }
+
   fn parse_call_array(
     &mut self,
     input: &'i [u8],
-- 
2.43.0


From 3f2bc623128296f3eea1774495b2bd9cfb8986d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 06/15] fix: expand null runs only to the elements which are
 missing

A BinaryArray counted a run of nulls as a single element, which panicked
for rectangular arrays and rejected the others. Other arrays grew beyond
their length when a run was too long, and a run in place of a class member
shifted the values of the members following it.
---
 src/binary_parser/mod.rs | 47 ++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 0f16e8a..4f9c03e 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -212,11 +212,10 @@ impl<'i> BinaryParser<'i> {
         ValueOrRef::Value(value) => {
           members2.push(value);
         },
-        ValueOrRef::Null(count) => {
-          for _ in 0..count {
-            members2.push(Value::Null);
-          }
+        ValueOrRef::Null(1) => {
+          members2.push(Value::Null);
         },
+        ValueOrRef::Null(_) => return Err(nom::Err::Failure(error_position!(input, InvalidNullCount))),
         ValueOrRef::Ref(id) => {
           if let Some(value) = self.take_object(id) {
             members2.push(value);
@@ -337,6 +336,10 @@ impl<'i> BinaryParser<'i> {
 
       match member {
         ValueOrRef::Null(count) => {
+          if count > len - members.len() {
+            return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+          }
+
           for _ in 0..count {
             members.push(ValueOrRef::Value(Value::Null));
           }
@@ -383,6 +386,10 @@ impl<'i> BinaryParser<'i> {
 
       match member {
         ValueOrRef::Null(count) => {
+          if count > len - members.len() {
+            return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+          }
+
           for _ in 0..count {
             members.push(ValueOrRef::Value(Value::Null));
           }
@@ -403,19 +410,35 @@ impl<'i> BinaryParser<'i> {
   fn parse_binary_array(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let err_input = input;
 
-    let (input, binary_array) = BinaryArray::parse(input)?;
+    let (mut input, binary_array) = BinaryArray::parse(input)?;
 
     let member_count = match binary_array.lengths.iter().copied().try_fold(1usize, |acc, n| acc.checked_mul(n)) {
       Some(member_count) => member_count,
       None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
     };
-    let (input, members) = count(
-      |input| {
-        self.parse_member_reference(input, Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())))
-      },
-      member_count,
-    )
-    .parse(input)?;
+
+    let mut members = vec![];
+
+    while members.len() < member_count {
+      let member;
+      (input, member) =
+        self.parse_member_reference(input, Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())))?;
+
+      match member {
+        ValueOrRef::Null(count) => {
+          if count > member_count - members.len() {
+            return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+          }
+
+          for _ in 0..count {
+            members.push(ValueOrRef::Value(Value::Null));
+          }
+        },
+        _ => {
+          members.push(member);
+        },
+      }
+    }
 
     let (input, members) = self.resolve_members(input, members)?;
     let object_id = binary_array.object_id();
-- 
2.43.0


From b2fb7681561cc15ebc63de30d08f04eac16188e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 07/15] fix: split rectangular arrays in linear time

Every row was moved out of the front of the remaining elements, so the time
to parse a rectangular array was quadratic in its number of rows.
---
 src/binary_parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 4f9c03e..a8d4823 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -447,8 +447,9 @@ impl<'i> BinaryParser<'i> {
     for l in binary_array.lengths.into_iter().skip(1).rev() {
       let mut members2 = vec![];
 
-      while !members.is_empty() {
-        members2.push(Value::Array(members.drain(0..l).collect::<Vec<_>>()));
+      let mut remaining = members.into_iter();
+      while remaining.len() > 0 {
+        members2.push(Value::Array(remaining.by_ref().take(l).collect::<Vec<_>>()));
       }
 
       members = members2;
-- 
2.43.0


From f646d320c71e16476a45fe51be9acb6f2de3f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 08/15] fix: parse Char values as UTF-8

Every byte was taken for a character of its own, so a character beyond
U+007F was split up and the records following it were misread.
---
 src/data_type/char.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/data_type/char.rs b/src/data_type/char.rs
index 26f8f2e..584187f 100644
--- a/src/data_type/char.rs
+++ b/src/data_type/char.rs
@@ -1,8 +1,8 @@
 use nom::{
   IResult, Parser,
   branch::alt,
+  bytes::complete::take,
   combinator::{map, map_opt},
-  number::complete::{le_u16, le_u24, le_u32, u8},
 };
 
 use super::impl_primitive;
@@ -18,12 +18,14 @@ pub struct Char(pub char);
 
 impl Char {
   pub fn parse(input: &[u8]) -> IResult<&[u8], Self, Error<'_>> {
+    let utf8_char = |bytes| std::str::from_utf8(bytes).ok()?.chars().next();
+
     map(
       alt((
-        map_opt(u8, |n| char::from_u32(n as u32)),
-        map_opt(le_u16, |n| char::from_u32(n as u32)),
-        map_opt(le_u24, char::from_u32),
-        map_opt(le_u32, char::from_u32),
+        map_opt(take(1usize), utf8_char),
+        map_opt(take(2usize), utf8_char),
+        map_opt(take(3usize), utf8_char),
+        map_opt(take(4usize), utf8_char),
       )),
       Self,
     )
-- 
2.43.0


From b49565093e98bf836629a58c9f21b82bfc18f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 09/15] fix: reject a List whose size exceeds its items by one

The end of the items was counted as an element, so that a size of one
more than the number of items was accepted.
---
 src/value/object.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/value/object.rs b/src/value/object.rs
index 7364f11..e3c879d 100644
--- a/src/value/object.rs
+++ b/src/value/object.rs
@@ -262,7 +262,9 @@ where
   {
     if self.count < self.size {
       let res = self.array_deserializer.next_element_seed(seed)?;
-      self.count += 1;
+      if res.is_some() {
+        self.count += 1;
+      }
       return Ok(res)
     }
 
-- 
2.43.0


From e1780f3d15bd4dadb46b725cefedfb35d3d51234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 10/15] fix: deserialize an optional root value

A root value other than null was rejected when deserializing an Option,
although the same value is accepted in every other place.
---
 src/remoting_message.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/remoting_message.rs b/src/remoting_message.rs
index 644fb80..b00f576 100644
--- a/src/remoting_message.rs
+++ b/src/remoting_message.rs
@@ -100,6 +100,13 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
     self.to_deserializer(&visitor)?.deserialize_any(visitor)
   }
 
+  fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+  where
+    V: Visitor<'de>,
+  {
+    self.to_deserializer(&visitor)?.deserialize_option(visitor)
+  }
+
   fn deserialize_struct<V>(
     self,
     name: &'static str,
@@ -114,7 +121,7 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
 
   forward_to_deserialize_any! {
       bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-      bytes byte_buf option unit unit_struct newtype_struct seq tuple
+      bytes byte_buf unit unit_struct newtype_struct seq tuple
       tuple_struct map enum identifier ignored_any
   }
 }
-- 
2.43.0


From 86ad8ad606bc8d7fae741cbe42936df51a7ff692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 11/15] fix: read the kind of a DateTime from its upper two
 bits

Ticks are the lower 62 bits of a DateTime, followed by the two bits of
the kind (2.1.1.5), which is how .NET writes it.
---
 src/value/date_time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value/date_time.rs b/src/value/date_time.rs
index 7a2e5e5..aea3a9d 100644
--- a/src/value/date_time.rs
+++ b/src/value/date_time.rs
@@ -17,12 +17,12 @@ impl DateTime {
   /// The value can represent time instants in a granularity of 100 nanoseconds
   /// until 23:59:59.9999999, December 31, 9999.
   pub fn ticks(&self) -> i64 {
-    i64::from(self.0) >> 2
+    i64::from(self.0) & 0x3FFF_FFFF_FFFF_FFFF
   }
 
   /// Provides the time-zone information.
   pub fn kind(&self) -> Option<DateTimeKind> {
-    match i64::from(self.0) & 0b11 {
+    match (i64::from(self.0) >> 62) & 0b11 {
       1 => Some(DateTimeKind::Utc),
       2 => Some(DateTimeKind::Local),
       _ => None,
-- 
2.43.0


From b841df8cc283ad620e3903f678341b03379c7f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 12/15] fix: accept negative IDs of class objects

Class objects which are not referenced may have a negative ID (2.3.1.1),
which .NET uses for every value type.
---
 src/combinator.rs           | 17 +++++++++++++++++
 src/common/class_info.rs    |  4 ++--
 src/record/class_with_id.rs |  6 +++---
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 03fb2ac..8973c55 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -44,6 +44,23 @@ pub fn object_id(input: &[u8]) -> IResult<&[u8], NonZeroU32, Error<'_>> {
   }
 }
 
+/// Unlike other object IDs, the ID of a class object may also be negative (2.3.1.1), as long as nothing refers to the
+/// object. The bits of a negative ID map to values outside of the range of positive IDs.
+pub fn class_object_id(input: &[u8]) -> IResult<&[u8], NonZeroU32, Error<'_>> {
+  let err_input = input;
+
+  match Int32::parse(input) {
+    Ok((input, object_id)) => {
+      if let Some(object_id) = NonZeroU32::new(i32::from(object_id) as u32) {
+        Ok((input, object_id))
+      } else {
+        Err(nom::Err::Failure(error_position!(err_input, InvalidObjectId)))
+      }
+    },
+    Err(err) => Err(err),
+  }
+}
+
 pub fn length(input: &[u8]) -> IResult<&[u8], usize, Error<'_>> {
   let err_input = input;
 
diff --git a/src/common/class_info.rs b/src/common/class_info.rs
index bef193a..67c4ee3 100644
--- a/src/common/class_info.rs
+++ b/src/common/class_info.rs
@@ -3,7 +3,7 @@ use std::num::NonZeroU32;
 use nom::{IResult, Parser, multi::length_count};
 
 use crate::{
-  combinator::{length, object_id},
+  combinator::{class_object_id, length},
   data_type::LengthPrefixedString,
   error::Error,
 };
@@ -18,7 +18,7 @@ pub struct ClassInfo<'i> {
 
 impl<'i> ClassInfo<'i> {
   pub fn parse(input: &'i [u8]) -> IResult<&'i [u8], Self, Error<'i>> {
-    let (input, object_id) = object_id(input)?;
+    let (input, object_id) = class_object_id(input)?;
     let (input, name) = LengthPrefixedString::parse(input)?;
     let (input, member_names) = length_count(length, LengthPrefixedString::parse).parse(input)?;
 
diff --git a/src/record/class_with_id.rs b/src/record/class_with_id.rs
index 028496b..3153d5c 100644
--- a/src/record/class_with_id.rs
+++ b/src/record/class_with_id.rs
@@ -3,7 +3,7 @@ use std::num::NonZeroU32;
 use nom::IResult;
 
 use crate::{
-  combinator::{self, object_id},
+  combinator::class_object_id,
   error::{Error, error_position},
   record::RecordType,
 };
@@ -19,9 +19,9 @@ impl ClassWithId {
   pub fn parse(input: &[u8]) -> IResult<&[u8], Self, Error<'_>> {
     let (input, _) = RecordType::ClassWithId.parse(input)?;
 
-    let (input, object_id) = object_id(input)?;
+    let (input, object_id) = class_object_id(input)?;
     let err_input = input;
-    let (input, metadata_id) = combinator::object_id(input)?;
+    let (input, metadata_id) = class_object_id(input)?;
 
     if metadata_id == object_id {
       return Err(nom::Err::Failure(error_position!(err_input, InvalidMetadataId)))
-- 
2.43.0


From d11a97f3582a42e01e2782c337569918b7feae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 13/15] fix: do not look for a BinaryLibrary in place of an
 untyped primitive

An untyped primitive starting with the byte 12, e.g. an Int32 with the
value 12 followed by a 0, was read as a BinaryLibrary.
---
 src/binary_parser/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index a8d4823..991703c 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -99,15 +99,21 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     type_enum_and_additional_type_info: Option<(BinaryType, Option<&AdditionalTypeInfo<'i>>)>,
   ) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
+    // An untyped primitive has no record type, so its first byte cannot be told apart from a `BinaryLibrary`.
+    if let Some((BinaryType::Primitive, Some(AdditionalTypeInfo::Primitive(primitive_type)))) =
+      type_enum_and_additional_type_info
+    {
+      return map(
+        |input| MemberPrimitiveUnTyped::parse(input, *primitive_type),
+        |primitive| ValueOrRef::Value(primitive.into_value()),
+      )
+      .parse(input)
+    }
+
     let (input, ()) = self.parse_binary_library(input)?;
 
     let (input, object) = if let Some((type_enum, additional_type_info)) = type_enum_and_additional_type_info {
       match (type_enum, additional_type_info) {
-        (BinaryType::Primitive, Some(AdditionalTypeInfo::Primitive(primitive_type))) => map(
-          |input| MemberPrimitiveUnTyped::parse(input, *primitive_type),
-          |primitive| ValueOrRef::Value(primitive.into_value()),
-        )
-        .parse(input)?,
         (BinaryType::String, None) => {
           alt((|input| self.parse_object_string(input), Self::parse_reference_or_null)).parse(input)?
         },
-- 
2.43.0


From 42198baf92031f6e4c7198dddc3e8600a75c4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 14/15] fix: accept negative lower bounds of arrays

A lower bound is the index of the first element of a dimension (2.4.3.1),
which may be negative, unlike a length.
---
 src/record/binary_array.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/record/binary_array.rs b/src/record/binary_array.rs
index cba98ac..c6fd932 100644
--- a/src/record/binary_array.rs
+++ b/src/record/binary_array.rs
@@ -5,6 +5,7 @@ use nom::{IResult, Parser, combinator::cond, multi::count};
 use crate::{
   combinator::{length, object_id},
   common::AdditionalTypeInfo,
+  data_type::Int32,
   enumeration::{BinaryArrayType, BinaryType},
   error::Error,
   record::RecordType,
@@ -16,7 +17,7 @@ pub struct BinaryArray<'i> {
   pub object_id: NonZeroU32,
   pub binary_array_type_enum: BinaryArrayType,
   pub lengths: Vec<usize>,
-  pub lower_bounds: Option<Vec<usize>>,
+  pub lower_bounds: Option<Vec<Int32>>,
   pub type_enum: BinaryType,
   pub additional_type_info: Option<AdditionalTypeInfo<'i>>,
 }
@@ -35,7 +36,7 @@ impl<'i> BinaryArray<'i> {
         binary_array_type_enum,
         BinaryArrayType::SingleOffset | BinaryArrayType::JaggedOffset | BinaryArrayType::RectangularOffset
       ),
-      count(length, rank),
+      count(Int32::parse, rank),
     )
     .parse(input)?;
     let (input, type_enum) = BinaryType::parse(input)?;
-- 
2.43.0


From ada91e75f68a0ec996a2e151564eb8a3da1c3f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 15/15] fix: ignore members without deserializing them

A member which is not a field of the target type was still deserialized,
and rejected the whole message if it was, for example, a List with other
members than expected.
---
 src/value/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 7b36c7d..f3abce6 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -237,9 +237,16 @@ impl<'de> Deserializer<'de> for ValueDeserializer<'de, '_> {
     }
   }
 
+  fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+  where
+    V: Visitor<'de>,
+  {
+    visitor.visit_unit()
+  }
+
   forward_to_deserialize_any! {
       bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
       bytes byte_buf unit unit_struct newtype_struct seq tuple
-      tuple_struct map enum identifier ignored_any
+      tuple_struct map enum identifier
   }
 }
-- 
2.43.0

