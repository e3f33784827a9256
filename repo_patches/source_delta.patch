From 309823fc58cf9cced324e185cccf8272750271e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 01/17] fix: don't allocate space for an untrusted number of
 values when decoding

The length prefix of a sequence comes from the bytes being decoded, so a few
bytes could ask for a gigabytes sized allocation up front (or a capacity
overflow panic).
---
 src/scale_impls/decode.rs                  | 2 +-
 src/scale_impls/mod.rs                     | 4 ++++
 src/scale_impls/tracing_decoder/visitor.rs | 3 ++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index fa3d533..805b8a9 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -75,7 +75,7 @@ where
 // Sequences, Tuples and Arrays all have the same methods, so decode them in the same way:
 macro_rules! to_unnamed_composite {
     ($value:ident, $type_id:ident) => {{
-        let mut vals = Vec::with_capacity($value.remaining());
+        let mut vals = Vec::with_capacity($value.remaining().min(super::MAX_PREALLOCATED_VALUES));
         while let Some(val) = $value.decode_item(DecodeValueVisitor::<R, F>::new()) {
             let val = val?;
             vals.push(val);
diff --git a/src/scale_impls/mod.rs b/src/scale_impls/mod.rs
index 955d76d..af7a9c2 100644
--- a/src/scale_impls/mod.rs
+++ b/src/scale_impls/mod.rs
@@ -19,3 +19,7 @@ mod tracing_decoder;
 
 pub use decode::{decode_composite_as_fields, decode_value_as_type, DecodeError, ValueVisitor};
 pub use tracing_decoder::{TraceDecodingError, TraceDecodingVisitor};
+
+/// The length of a sequence is read from the bytes being decoded and can't be trusted, so never
+/// allocate space for more than this many values up front.
+const MAX_PREALLOCATED_VALUES: usize = 1024;
diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index e80e229..3c4fdb5 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -69,7 +69,8 @@ macro_rules! to_unnamed_composite {
                 return Err(err);
             }
 
-            let mut vals = Vec::with_capacity($value.remaining());
+            let mut vals =
+                Vec::with_capacity($value.remaining().min(crate::scale_impls::MAX_PREALLOCATED_VALUES));
             while let Some(val) = $value.decode_item($self.at_idx(idx)) {
                 match val {
                     Err(e) => {
-- 
2.43.0


From cf063525f46d95db85ba04ed408523d8cef97c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 02/17] fix: decode signed 256 bit integers to Primitive::I256
 rather than U256

---
 src/scale_impls/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index 805b8a9..f2e43d7 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -287,7 +287,7 @@ where
         type_id: R::TypeId,
     ) -> Result<Self::Value<'_, 'info>, Self::Error> {
         Ok(Value {
-            value: ValueDef::Primitive(Primitive::U256(*value)),
+            value: ValueDef::Primitive(Primitive::I256(*value)),
             context: F::context_from_type_id(&type_id),
         })
     }
-- 
2.43.0


From 9f0f6713de0915ec3bd3b5faf55708173b235ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 03/17] fix: don't move the input cursor when
 Composite::decode_as_fields fails

This matches decode_composite_as_fields, which only moves it on success.
---
 src/scale_impls/decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index f2e43d7..3d5e30b 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -102,11 +102,11 @@ impl scale_decode::DecodeAsFields for Composite<()> {
             false,
         );
         // Decode into a Composite value from this:
-        let val = visit_composite::<R, EmptyContext>(&mut composite);
+        let val = visit_composite::<R, EmptyContext>(&mut composite)?;
         // Consume remaining bytes and update input cursor:
         composite.skip_decoding()?;
         *input = composite.bytes_from_undecoded();
-        val.map_err(From::from).map(|v| v.map_context(|_| {}))
+        Ok(val.map_context(|_| {}))
     }
 }
 
-- 
2.43.0


From 41c8e19c82f31ab5637b8b3a2c4c4db3c978f72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 04/17] fix: display tracing decode errors when a 256 bit
 integer was decoded

Formatting such a value fails, and a failing Display impl makes to_string()
panic.
---
 src/scale_impls/tracing_decoder/error.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/error.rs b/src/scale_impls/tracing_decoder/error.rs
index a7f784f..b6bfe52 100644
--- a/src/scale_impls/tracing_decoder/error.rs
+++ b/src/scale_impls/tracing_decoder/error.rs
@@ -17,7 +17,7 @@ use super::path::Path;
 use crate::prelude::*;
 use crate::scale::DecodeError;
 use crate::string_impls::format_hex;
-use crate::Value;
+use crate::{Primitive, Value, ValueDef};
 use core::fmt::Write;
 
 /// An error encountered when decoding some bytes using the [`crate::scale::tracing`] module.
@@ -133,5 +133,19 @@ fn display_value_with_typeid<Id: core::fmt::Debug>(
             write!(writer, "{type_id:?}")
         })
         .add_custom_formatter(|value, writer| format_hex(value, writer))
+        .add_custom_formatter(|value, writer| format_256_bit(value, writer))
         .write(value, f)
 }
+
+// 256 bit integers can't be written as numbers, so write their (little endian) bytes as hex instead
+// in order that errors containing them can be displayed.
+fn format_256_bit<T, W: Write>(value: &Value<T>, writer: &mut W) -> Option<core::fmt::Result> {
+    match &value.value {
+        ValueDef::Primitive(Primitive::U256(bytes) | Primitive::I256(bytes)) => Some(
+            writer
+                .write_str("0x")
+                .and_then(|()| bytes.iter().try_for_each(|b| write!(writer, "{b:02x}"))),
+        ),
+        _ => None,
+    }
+}
-- 
2.43.0


From 1bf7937244aa33fcbb94273a6cadbc9b3e26c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 05/17] fix: leave the output as it was when encoding a value
 fails

Encoding variants, fields and bit sequences could leave a partially encoded
value behind in the provided output buffer.
---
 src/scale_impls/encode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 5dcebee..8a3b7a1 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -31,12 +31,15 @@ impl<T> EncodeAsType for Value<T> {
         types: &R,
         out: &mut Vec<u8>,
     ) -> Result<(), Error> {
+        let original_len = out.len();
         match &self.value {
             ValueDef::Composite(val) => encode_composite(val, type_id, types, out),
             ValueDef::Variant(val) => encode_variant(val, type_id, types, out),
             ValueDef::Primitive(val) => encode_primitive(val, type_id, types, out),
             ValueDef::BitSequence(val) => encode_bitsequence(val, type_id, types, out),
         }
+        // Don't leave a partially encoded value in the output:
+        .inspect_err(|_| out.truncate(original_len))
     }
 }
 
@@ -61,6 +64,7 @@ impl<T> EncodeAsFields for Composite<T> {
         types: &R,
         out: &mut Vec<u8>,
     ) -> Result<(), Error> {
+        let original_len = out.len();
         match self {
             Composite::Named(vals) => {
                 let keyvals =
@@ -72,6 +76,8 @@ impl<T> EncodeAsFields for Composite<T> {
                 EncodeComposite::new(vals).encode_composite_fields_to(fields, types, out)
             }
         }
+        // Don't leave partially encoded fields in the output:
+        .inspect_err(|_| out.truncate(original_len))
     }
 }
 
-- 
2.43.0


From 286ac41e101f0028a0806e818c57f0e0698a19a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 06/17] fix: report type resolving errors when encoding
 composites

A type that could not be resolved was treated like one that does not fit, so
the fallbacks tried next could succeed and encode to the wrong bytes.
---
 src/scale_impls/encode.rs | 46 ++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 8a3b7a1..a290d8a 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -136,6 +136,9 @@ fn encode_composite<T, R: TypeResolver>(
                 })),
             }
         })
+        .visit_not_found(|(type_id, _)| {
+            Err(Error::new(ErrorKind::TypeNotFound(format!("{type_id:?}"))))
+        })
         .visit_composite(|ctx, _, _| visit_composite_or_tuple(ctx))
         .visit_tuple(|ctx, _| visit_composite_or_tuple(ctx))
         .visit_sequence(|(_, out), _path, type_id| {
@@ -192,6 +195,9 @@ fn encode_composite<T, R: TypeResolver>(
                 out.extend_from_slice(&temp_out);
                 return Ok(());
             }
+            // We don't know what the type looks like, so we can't tell whether trying
+            // something else instead would be right.
+            Err(e) if is_resolve_error(&e) => return Err(e),
             Err(e) => e,
         }
     };
@@ -202,13 +208,16 @@ fn encode_composite<T, R: TypeResolver>(
     // to unwrap then ignore this extra encode attempt.
     {
         let (inner_type_id, inner_is_different) =
-            find_single_entry_with_same_repr::<R>(type_id.clone(), types);
+            find_single_entry_with_same_repr::<R>(type_id.clone(), types)?;
         if inner_is_different {
             let mut temp_out = Vec::new();
-            if let Ok(()) = do_encode_composite(value, inner_type_id.clone(), types, &mut temp_out)
-            {
-                out.extend_from_slice(&temp_out);
-                return Ok(());
+            match do_encode_composite(value, inner_type_id.clone(), types, &mut temp_out) {
+                Ok(()) => {
+                    out.extend_from_slice(&temp_out);
+                    return Ok(());
+                }
+                Err(e) if is_resolve_error(&e) => return Err(e),
+                Err(_) => {}
             }
             type_id = inner_type_id;
         }
@@ -221,9 +230,13 @@ fn encode_composite<T, R: TypeResolver>(
     // fails.
     if let Some(value) = get_only_value_from_composite(value) {
         let mut temp_out = Vec::new();
-        if let Ok(()) = value.encode_as_type_to(type_id.clone(), types, &mut temp_out) {
-            out.extend_from_slice(&temp_out);
-            return Ok(());
+        match value.encode_as_type_to(type_id.clone(), types, &mut temp_out) {
+            Ok(()) => {
+                out.extend_from_slice(&temp_out);
+                return Ok(());
+            }
+            Err(e) if is_resolve_error(&e) => return Err(e),
+            Err(_) => {}
         }
     }
 
@@ -231,20 +244,25 @@ fn encode_composite<T, R: TypeResolver>(
     Err(original_error)
 }
 
+// Did encoding fail because some type could not be resolved (as opposed to the type not fitting)?
+fn is_resolve_error(e: &Error) -> bool {
+    matches!(e.kind(), ErrorKind::TypeResolvingError(_) | ErrorKind::TypeNotFound(_))
+}
+
 /// Skip into the target type past any newtype wrapper like things.
 /// Also returns a bool indicating whether we skipped into something or not.
 /// This bool is true when the returned id is different from the id that was passed in.
 fn find_single_entry_with_same_repr<R: TypeResolver>(
     type_id: R::TypeId,
     types: &R,
-) -> (R::TypeId, bool) {
+) -> Result<(R::TypeId, bool), Error> {
     fn do_find<R: TypeResolver>(
         type_id: R::TypeId,
         types: &R,
         type_id_has_changed: bool,
-    ) -> (R::TypeId, bool) {
-        let ctx = (type_id.clone(), type_id_has_changed);
-        let visitor = scale_type_resolver::visitor::new(ctx.clone(), |ctx, _| ctx)
+    ) -> Result<(R::TypeId, bool), Error> {
+        let ctx = Ok((type_id.clone(), type_id_has_changed));
+        let visitor = scale_type_resolver::visitor::new(ctx, |ctx, _| ctx)
             .visit_tuple(|return_unchanged, fields| {
                 if fields.len() == 1 {
                     let ty = fields.next().expect("has 1 item; qed;");
@@ -270,7 +288,9 @@ fn find_single_entry_with_same_repr<R: TypeResolver>(
                     }
                 },
             );
-        types.resolve_type(type_id, visitor).unwrap_or(ctx)
+        types
+            .resolve_type(type_id, visitor)
+            .unwrap_or_else(|e| Err(Error::new(ErrorKind::TypeResolvingError(format!("{e:?}")))))
     }
     do_find(type_id, types, false)
 }
-- 
2.43.0


From 7d81438161999b7edb0ba5707d24068d9e76076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 07/17] fix: don't try the same failing encode of an inner
 value twice per layer

Each layer of single value composites doubled the number of attempts made to
encode the innermost value to a type that it does not fit.
---
 src/scale_impls/encode.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index a290d8a..6dd891d 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -228,7 +228,11 @@ fn encode_composite<T, R: TypeResolver>(
     // encoded. The inner `.encode_as_type_to` will loop around and peel off another layer
     // etc if no luck. Ultimately we'll just return the original error below if this all
     // fails.
-    if let Some(value) = get_only_value_from_composite(value) {
+    //
+    // This is skipped if we know that the above has tried (and failed) to do exactly this already,
+    // because otherwise the work done would double with each layer.
+    let inner_value = get_only_value_from_composite(value);
+    if let Some(value) = inner_value.filter(|_| !tries_only_value(value, type_id.clone(), types)) {
         let mut temp_out = Vec::new();
         match value.encode_as_type_to(type_id.clone(), types, &mut temp_out) {
             Ok(()) => {
@@ -304,6 +308,22 @@ fn get_only_value_from_composite<T>(value: &'_ Composite<T>) -> Option<&'_ Value
     }
 }
 
+// When a composite containing exactly one value is encoded as-is to the given type (which isn't newtype
+// wrapper like), does this just encode that one value to the type?
+fn tries_only_value<T, R: TypeResolver>(
+    value: &Composite<T>,
+    type_id: R::TypeId,
+    types: &R,
+) -> bool {
+    let is_unnamed = matches!(value, Composite::Unnamed(_));
+    let visitor = scale_type_resolver::visitor::new((), |_, _| true)
+        .visit_composite(|_, _, _| is_unnamed)
+        .visit_sequence(|_, _, _| false)
+        .visit_array(|_, _, _| false)
+        .visit_bit_sequence(|_, _, _| false);
+    types.resolve_type(type_id, visitor).unwrap_or(false)
+}
+
 // It's likely that people will use a composite to represen bit sequences,
 // so support encoding to them in this way too.
 fn encode_vals_to_bitsequence<'a, T: 'a>(
-- 
2.43.0


From 266535010b05a41e85499d426796cf53346af03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 08/17] fix: consume exactly what a custom parser consumed

The number of bytes consumed was taken to be a number of chars, and so too
much was skipped if the text consumed contained multi-byte chars.
---
 src/string_impls/from_string.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 77f89e6..acb5b0c 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -236,9 +236,8 @@ fn parse_value(
                         // Wind our StrTokens forward to take into account anything that
                         // was consumed. We do this rather than replacing it because we want
                         // to preserve the full string and offsets.
-                        for _ in cursor.len()..s.len() {
-                            t.next();
-                        }
+                        let end_offset = start_offset + s.len().saturating_sub(cursor.len());
+                        while t.offset() < end_offset && t.next().is_some() {}
                         return Ok(value);
                     }
                     Err(e) => {
-- 
2.43.0


From 2070fb78635a1d6f67e1ef5a1a5dade490081d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 09/17] fix: don't let a custom parser that declines affect the
 next one

A parser that moved its cursor before returning None left the next one with
only part of the text.
---
 src/string_impls/from_string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index acb5b0c..b7e049a 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -227,9 +227,10 @@ fn parse_value(
     if !custom_parsers.is_empty() {
         let s = t.remaining();
         let start_offset = t.offset();
-        let cursor = &mut &*s;
 
         for parser in custom_parsers {
+            // Each parser sees all of the remaining text, whatever the previous one did with it.
+            let cursor = &mut &*s;
             if let Some(res) = parser(cursor) {
                 match res {
                     Ok(value) => {
-- 
2.43.0


From 7db2ff0d580a28b2be6049342440476f6853cc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 10/17] fix: read back variants whose name is or begins with
 true or false

The start of such a name was parsed as a bool. Only parse whole words as bools,
and quote variant names that are such words.
---
 src/string_impls/from_string.rs | 14 ++++++++++----
 src/string_impls/to_string.rs   |  4 +++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index b7e049a..fdf32c9 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -384,12 +384,18 @@ fn parse_bit_sequence(t: &mut StrTokens) -> Result<BitSequence, Option<ParseErro
 
 // Parse a bool (`true` or `false`)
 fn parse_bool(t: &mut StrTokens) -> Option<bool> {
-    if t.tokens("true".chars()) {
-        Some(true)
+    let b = if t.tokens("true".chars()) {
+        true
     } else if t.tokens("false".chars()) {
-        Some(false)
+        false
     } else {
-        None
+        return None;
+    };
+
+    // This might just be the beginning of some ident, like `true_story (1,2)`.
+    match t.peek() {
+        Some(c) if c.is_alphanumeric() || c == '_' => None,
+        _ => Some(b),
     }
 }
 
diff --git a/src/string_impls/to_string.rs b/src/string_impls/to_string.rs
index 060afba..d6266b7 100644
--- a/src/string_impls/to_string.rs
+++ b/src/string_impls/to_string.rs
@@ -431,7 +431,9 @@ fn fmt_variant<T, W: core::fmt::Write>(
     v: &Variant<T>,
     f: &mut Formatter<T, W>,
 ) -> core::fmt::Result {
-    if is_ident(&v.name) {
+    // These would be parsed back as bools if written as they are.
+    let is_bool = matches!(&*v.name, "true" | "false");
+    if is_ident(&v.name) && !is_bool {
         f.write_str(&v.name)?;
     } else {
         // If the variant name isn't a valid ident, we parse it into
-- 
2.43.0


From e5ebc4122fd512e6f33b6df0a9a47b3258cdbe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 11/17] fix: don't allocate space for an untrusted number of
 values when deserializing

Size hints can come straight from the input, and so can be arbitrarily large.
---
 src/serde_impls/bitvec_helpers.rs | 2 +-
 src/serde_impls/deserialize.rs    | 4 ++--
 src/serde_impls/mod.rs            | 9 +++++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/serde_impls/bitvec_helpers.rs b/src/serde_impls/bitvec_helpers.rs
index f3bec60..f1274e7 100644
--- a/src/serde_impls/bitvec_helpers.rs
+++ b/src/serde_impls/bitvec_helpers.rs
@@ -88,7 +88,7 @@ impl<'de> Visitor<'de> for MapOrBitSeqVisitor {
         }
 
         // That didn't work, so decode the first value as a Value<()> instead:
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(super::capacity_from(map.size_hint()));
         values.push((first_key, map.next_value()?));
 
         // .. and then decode all of the other key-value pairs and add them too:
diff --git a/src/serde_impls/deserialize.rs b/src/serde_impls/deserialize.rs
index d6ad924..8255b47 100644
--- a/src/serde_impls/deserialize.rs
+++ b/src/serde_impls/deserialize.rs
@@ -191,7 +191,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut values = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(super::capacity_from(seq.size_hint()));
         while let Some(value) = seq.next_element()? {
             values.push(value);
         }
@@ -202,7 +202,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::MapAccess<'de>,
     {
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(super::capacity_from(map.size_hint()));
         while let Some(key_val) = map.next_entry()? {
             values.push(key_val);
         }
diff --git a/src/serde_impls/mod.rs b/src/serde_impls/mod.rs
index efb4c79..a1733ad 100644
--- a/src/serde_impls/mod.rs
+++ b/src/serde_impls/mod.rs
@@ -22,3 +22,12 @@ mod serializer;
 pub use deserializer::DeserializerError;
 
 pub use serializer::{SerializerError, ValueSerializer};
+
+/// A size hint might be based on untrusted input, so never allocate space for more than this many
+/// values up front.
+const MAX_PREALLOCATED_VALUES: usize = 1024;
+
+/// The capacity to start with given some size hint.
+fn capacity_from(size_hint: Option<usize>) -> usize {
+    size_hint.unwrap_or(0).min(MAX_PREALLOCATED_VALUES)
+}
-- 
2.43.0


From 617983a2050c62082aaeb8f889e355b69ee28d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 12/17] fix: don't repeat failed attempts to encode a value

When a composite with only one value could not be encoded, the same attempt was
made up to three times for each such layer, so that the work needed to reject a
value was exponential in its depth.
---
 src/scale_impls/encode.rs | 94 ++++++++++++++++++++++++++++++++-------
 1 file changed, 78 insertions(+), 16 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 6dd891d..dcb7d52 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -202,6 +202,18 @@ fn encode_composite<T, R: TypeResolver>(
         }
     };
 
+    // That may well have tried to encode the only value that we have already, so find out what is left to
+    // try below. Trying anything twice would multiply the work done with each layer of the value.
+    let inner_value = get_only_value_from_composite(value);
+    let tried_inner_value = match inner_value {
+        Some(_) => match tries_only_value(value, type_id.clone(), types)? {
+            Tried::Everything => return Err(original_error),
+            Tried::OnlyValue => true,
+            Tried::Nothing => false,
+        },
+        None => false,
+    };
+
     // Next, unwrap any newtype wrappers from our TypeInfo and try again. If we
     // can unwrap, then try to encode our Value to this immediately (this will work
     // if the Value provided already ignored all newtype wrappers). If we have nothing
@@ -229,12 +241,13 @@ fn encode_composite<T, R: TypeResolver>(
     // etc if no luck. Ultimately we'll just return the original error below if this all
     // fails.
     //
-    // This is skipped if we know that the above has tried (and failed) to do exactly this already,
-    // because otherwise the work done would double with each layer.
-    let inner_value = get_only_value_from_composite(value);
-    if let Some(value) = inner_value.filter(|_| !tries_only_value(value, type_id.clone(), types)) {
+    // This is skipped if we know that the above has tried (and failed) to do exactly this already.
+    if let Some(inner_value) = inner_value.filter(|_| !tried_inner_value) {
+        if matches!(tries_only_value(value, type_id.clone(), types)?, Tried::Everything) {
+            return Err(original_error);
+        }
         let mut temp_out = Vec::new();
-        match value.encode_as_type_to(type_id.clone(), types, &mut temp_out) {
+        match inner_value.encode_as_type_to(type_id.clone(), types, &mut temp_out) {
             Ok(()) => {
                 out.extend_from_slice(&temp_out);
                 return Ok(());
@@ -308,20 +321,69 @@ fn get_only_value_from_composite<T>(value: &'_ Composite<T>) -> Option<&'_ Value
     }
 }
 
-// When a composite containing exactly one value is encoded as-is to the given type (which isn't newtype
-// wrapper like), does this just encode that one value to the type?
+// What has been tried by encoding a composite containing exactly one value as-is?
+enum Tried {
+    // Anything that could be tried for this value and type.
+    Everything,
+    // To encode the only value to the type; the composite itself might be a sequence still.
+    OnlyValue,
+    // Neither of these.
+    Nothing,
+}
+
+// Given a composite containing exactly one value, find out what encoding it as-is to the given type has tried.
 fn tries_only_value<T, R: TypeResolver>(
     value: &Composite<T>,
-    type_id: R::TypeId,
+    mut type_id: R::TypeId,
     types: &R,
-) -> bool {
-    let is_unnamed = matches!(value, Composite::Unnamed(_));
-    let visitor = scale_type_resolver::visitor::new((), |_, _| true)
-        .visit_composite(|_, _, _| is_unnamed)
-        .visit_sequence(|_, _, _| false)
-        .visit_array(|_, _, _| false)
-        .visit_bit_sequence(|_, _, _| false);
-    types.resolve_type(type_id, visitor).unwrap_or(false)
+) -> Result<Tried, Error> {
+    enum Outcome<TypeId> {
+        Done(Tried),
+        Inside(TypeId),
+        InsideNamed(TypeId),
+    }
+
+    // The name of our value, until it has been lined up with a field of the same name.
+    let mut name = match value {
+        Composite::Named(vals) => vals.first().map(|(name, _)| &**name),
+        Composite::Unnamed(_) => None,
+    };
+    let mut is_inside = false;
+
+    loop {
+        let tries_sequence = || if is_inside { Tried::OnlyValue } else { Tried::Nothing };
+        let visitor =
+            scale_type_resolver::visitor::new((), |_, _| Outcome::Done(Tried::Everything))
+                .visit_composite(|_, _, fields| match fields.next() {
+                    Some(field) if fields.len() == 0 => match (name, field.name) {
+                        (Some(name), Some(field_name)) if name == field_name => {
+                            Outcome::InsideNamed(field.id)
+                        }
+                        (Some(_), Some(_)) => Outcome::Done(Tried::Nothing),
+                        _ => Outcome::Inside(field.id),
+                    },
+                    _ if name.is_some() => Outcome::Done(Tried::Nothing),
+                    _ => Outcome::Done(Tried::Everything),
+                })
+                .visit_tuple(|_, fields| match fields.next() {
+                    Some(field_id) if fields.len() == 0 => Outcome::Inside(field_id),
+                    _ => Outcome::Done(Tried::Everything),
+                })
+                .visit_sequence(|_, _, _| Outcome::Done(tries_sequence()))
+                .visit_bit_sequence(|_, _, _| Outcome::Done(tries_sequence()))
+                .visit_array(|_, _, _| Outcome::Done(Tried::Nothing));
+
+        type_id = match types.resolve_type(type_id, visitor) {
+            Ok(Outcome::Done(tried)) => return Ok(tried),
+            Ok(Outcome::Inside(inner_type_id)) => inner_type_id,
+            Ok(Outcome::InsideNamed(inner_type_id)) => {
+                name = None;
+                inner_type_id
+            }
+            Err(e) => return Err(Error::new(ErrorKind::TypeResolvingError(format!("{e:?}")))),
+        };
+        is_inside = true;
+    }
 }
 
 // It's likely that people will use a composite to represen bit sequences,
-- 
2.43.0


From f7530ee658d176a3ccb06fc5a148b2fa604cee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 13/17] fix: encode a sequence wrapped like its type to exactly
 that type

A sequence value wrapped in several single field composites lost one of its
layers when encoded to a sequence type wrapped in as many single unnamed field
types; encoding `[[[]]]`, as obtained by decoding `((Vec<Vec<u8>>,),)`, wrote a
vector containing one empty vector instead of an empty one.
---
 src/scale_impls/encode.rs | 68 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index dcb7d52..4952932 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -184,6 +184,22 @@ fn encode_composite<T, R: TypeResolver>(
         }
     }
 
+    // A sequence of just one value looks the same as a newtype wrapper. If there are as many wrappers in the value
+    // as there are around the sequence type, then what's inside of them is the sequence to be encoded.
+    if let Some((inner_value, inner_type_id)) =
+        skip_matching_newtypes(value, type_id.clone(), types)?
+    {
+        let mut temp_out = Vec::new();
+        match inner_value.encode_as_type_to(inner_type_id, types, &mut temp_out) {
+            Ok(()) => {
+                out.extend_from_slice(&temp_out);
+                return Ok(());
+            }
+            Err(e) if is_resolve_error(&e) => return Err(e),
+            Err(_) => {}
+        }
+    }
+
     // First, try and encode everything as-is, only writing to the output
     // bytes if the encoding is actually successful. This means that if the
     // Value provided matches the structure of the TypeInfo exactly, things
@@ -312,6 +328,58 @@ fn find_single_entry_with_same_repr<R: TypeResolver>(
     do_find(type_id, types, false)
 }
 
+// `EncodeComposite` skips past any number of single unnamed field types, but only past one layer of the value.
+// So, if a sequence or array type is wrapped in several of those, skip past as many layers of the value here.
+// Returns `None` if this isn't the case, or if the value isn't wrapped in the same way as the type is.
+fn skip_matching_newtypes<'a, T, R: TypeResolver>(
+    value: &'a Composite<T>,
+    mut type_id: R::TypeId,
+    types: &R,
+) -> Result<Option<(&'a Value<T>, R::TypeId)>, Error> {
+    enum Outcome<TypeId> {
+        Sequence,
+        Inside(TypeId),
+        Other,
+    }
+
+    let mut composite = Some(value);
+    let mut inner_value = None;
+    let mut skipped = 0;
+    loop {
+        let visitor = scale_type_resolver::visitor::new((), |_, _| Outcome::Other)
+            .visit_composite(|_, _, fields| match fields.next() {
+                Some(field) if fields.len() == 0 && field.name.is_none() => {
+                    Outcome::Inside(field.id)
+                }
+                _ => Outcome::Other,
+            })
+            .visit_tuple(|_, fields| match fields.next() {
+                Some(field_id) if fields.len() == 0 => Outcome::Inside(field_id),
+                _ => Outcome::Other,
+            })
+            .visit_sequence(|_, _, _| Outcome::Sequence)
+            .visit_array(|_, _, _| Outcome::Sequence);
+
+        match types.resolve_type(type_id.clone(), visitor) {
+            Ok(Outcome::Sequence) if skipped > 1 => {
+                return Ok(inner_value.map(|value| (value, type_id)));
+            }
+            Ok(Outcome::Inside(inner_type_id)) => type_id = inner_type_id,
+            Ok(_) => return Ok(None),
+            Err(e) => return Err(Error::new(ErrorKind::TypeResolvingError(format!("{e:?}")))),
+        }
+
+        let Some(Composite::Unnamed(vals)) = composite else { return Ok(None) };
+        let [only_value] = &vals[..] else { return Ok(None) };
+        composite = match &only_value.value {
+            ValueDef::Composite(inner) => Some(inner),
+            _ => None,
+        };
+        inner_value = Some(only_value);
+        skipped += 1;
+    }
+}
+
 // if the composite type has exactly one value, return that Value, else return None.
 fn get_only_value_from_composite<T>(value: &'_ Composite<T>) -> Option<&'_ Value<T>> {
     let mut values = value.values();
-- 
2.43.0


From aef58f9ee55a151d1f630e14fdf6a783e0fdcd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 14/17] fix: encode chars to the char type

Encoding a char to the primitive char type, as obtained by decoding one,
failed because `scale_encode` only encodes chars to integers.
---
 src/scale_impls/encode.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 4952932..6f59577 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -23,6 +23,7 @@ use scale_encode::{error::Kind, EncodeAsFields, EncodeAsType, Error};
 use scale_encode::{
     Composite as EncodeComposite, CompositeField, FieldIter, Variant as EncodeVariant,
 };
+use scale_type_resolver::Primitive as TypePrimitive;
 
 impl<T> EncodeAsType for Value<T> {
     fn encode_as_type_to<R: TypeResolver>(
@@ -527,7 +528,14 @@ fn encode_primitive<R: TypeResolver>(
 ) -> Result<(), Error> {
     match value {
         Primitive::Bool(val) => val.encode_as_type_to(type_id, types, bytes),
-        Primitive::Char(val) => val.encode_as_type_to(type_id, types, bytes),
+        Primitive::Char(val) => {
+            // `scale_encode` only knows how to encode chars to integer types.
+            if is_primitive_type(type_id.clone(), types, TypePrimitive::Char)? {
+                (*val as u32).encode_to(bytes);
+                return Ok(());
+            }
+            val.encode_as_type_to(type_id, types, bytes)
+        }
         Primitive::String(val) => val.encode_as_type_to(type_id, types, bytes),
         Primitive::U128(val) => val.encode_as_type_to(type_id, types, bytes),
         Primitive::I128(val) => val.encode_as_type_to(type_id, types, bytes),
@@ -536,6 +544,20 @@ fn encode_primitive<R: TypeResolver>(
     }
 }
 
+// Is the type the given primitive type, once any newtype wrappers have been skipped?
+fn is_primitive_type<R: TypeResolver>(
+    type_id: R::TypeId,
+    types: &R,
+    expected: TypePrimitive,
+) -> Result<bool, Error> {
+    let (type_id, _) = find_single_entry_with_same_repr(type_id, types)?;
+    let visitor = scale_type_resolver::visitor::new((), |_, _| false)
+        .visit_primitive(|_, primitive| primitive == expected);
+    types
+        .resolve_type(type_id, visitor)
+        .map_err(|e| Error::new(ErrorKind::TypeResolvingError(format!("{e:?}"))))
+}
+
 fn encode_bitsequence<R: TypeResolver>(
     value: &Bits,
     type_id: R::TypeId,
-- 
2.43.0


From df305de2f5f4739104893f030fb8213359cfaa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 15/17] fix: encode 256 bit integers to the 256 bit integer
 types

Encoding such a value to the primitive type it was decoded from failed because
`scale_encode` only encodes its bytes to sequences and arrays.
---
 src/scale_impls/encode.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 6f59577..b817cf7 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -539,8 +539,21 @@ fn encode_primitive<R: TypeResolver>(
         Primitive::String(val) => val.encode_as_type_to(type_id, types, bytes),
         Primitive::U128(val) => val.encode_as_type_to(type_id, types, bytes),
         Primitive::I128(val) => val.encode_as_type_to(type_id, types, bytes),
-        Primitive::U256(val) => val.encode_as_type_to(type_id, types, bytes),
-        Primitive::I256(val) => val.encode_as_type_to(type_id, types, bytes),
+        Primitive::U256(val) => {
+            // `scale_encode` only knows how to encode these bytes to sequences and arrays.
+            if is_primitive_type(type_id.clone(), types, TypePrimitive::U256)? {
+                bytes.extend_from_slice(val);
+                return Ok(());
+            }
+            val.encode_as_type_to(type_id, types, bytes)
+        }
+        Primitive::I256(val) => {
+            if is_primitive_type(type_id.clone(), types, TypePrimitive::I256)? {
+                bytes.extend_from_slice(val);
+                return Ok(());
+            }
+            val.encode_as_type_to(type_id, types, bytes)
+        }
     }
 }
 
-- 
2.43.0


From 08006259fd574cfbd626456f39f65b5bad3280a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 16/17] fix: don't panic on overly long base58 strings in
 parse_ss58

---
 src/string_impls/custom_parsers/ss58.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/string_impls/custom_parsers/ss58.rs b/src/string_impls/custom_parsers/ss58.rs
index b373604..2dfb9e8 100644
--- a/src/string_impls/custom_parsers/ss58.rs
+++ b/src/string_impls/custom_parsers/ss58.rs
@@ -29,6 +29,9 @@ pub fn parse_ss58(s: &mut &str) -> Option<Result<Value<()>, ParseError>> {
 
 fn parse_ss58_bytes(s: &mut &str) -> Option<Vec<u8>> {
     const CHECKSUM_LEN: usize = 2;
+    // The base58 decoder panics if there are more bytes than this to decode. Each char is worth less
+    // than a byte (or exactly one, if it's a leading `1`), and addresses are much shorter than this.
+    const MAX_LEN: usize = 132;
 
     // ss58 addresses are base58 encoded. Base58 is all alphanumeric chars
     // minus a few that look potentially similar. So, gather alphanumeric chars
@@ -37,7 +40,7 @@ fn parse_ss58_bytes(s: &mut &str) -> Option<Vec<u8>> {
     let maybe_ss58 = &s[0..end_idx];
     let rest = &s[end_idx..];
 
-    if maybe_ss58.is_empty() {
+    if maybe_ss58.is_empty() || maybe_ss58.len() > MAX_LEN {
         return None;
     }
 
-- 
2.43.0


From 83925236187514f39e81b92eaabbce4e0daec28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:47 +0000
Subject: [PATCH 17/17] fix: report a type that goes missing midway through
 encoding rather than working around it

---
 src/scale_impls/encode.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index b817cf7..5cf8038 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -137,9 +137,7 @@ fn encode_composite<T, R: TypeResolver>(
                 })),
             }
         })
-        .visit_not_found(|(type_id, _)| {
-            Err(Error::new(ErrorKind::TypeNotFound(format!("{type_id:?}"))))
-        })
+        .visit_not_found(|(type_id, _)| Err(type_not_found(&type_id)))
         .visit_composite(|ctx, _, _| visit_composite_or_tuple(ctx))
         .visit_tuple(|ctx, _| visit_composite_or_tuple(ctx))
         .visit_sequence(|(_, out), _path, type_id| {
@@ -283,6 +281,10 @@ fn is_resolve_error(e: &Error) -> bool {
     matches!(e.kind(), ErrorKind::TypeResolvingError(_) | ErrorKind::TypeNotFound(_))
 }
 
+fn type_not_found<TypeId: core::fmt::Debug>(type_id: &TypeId) -> Error {
+    Error::new(ErrorKind::TypeNotFound(format!("{type_id:?}")))
+}
+
 /// Skip into the target type past any newtype wrapper like things.
 /// Also returns a bool indicating whether we skipped into something or not.
 /// This bool is true when the returned id is different from the id that was passed in.
@@ -296,7 +298,9 @@ fn find_single_entry_with_same_repr<R: TypeResolver>(
         type_id_has_changed: bool,
     ) -> Result<(R::TypeId, bool), Error> {
         let ctx = Ok((type_id.clone(), type_id_has_changed));
+        let not_found_id = type_id.clone();
         let visitor = scale_type_resolver::visitor::new(ctx, |ctx, _| ctx)
+            .visit_not_found(|_| Err(type_not_found(&not_found_id)))
             .visit_tuple(|return_unchanged, fields| {
                 if fields.len() == 1 {
                     let ty = fields.next().expect("has 1 item; qed;");
@@ -340,6 +344,7 @@ fn skip_matching_newtypes<'a, T, R: TypeResolver>(
     enum Outcome<TypeId> {
         Sequence,
         Inside(TypeId),
+        NotFound,
         Other,
     }
 
@@ -348,6 +353,7 @@ fn skip_matching_newtypes<'a, T, R: TypeResolver>(
     let mut skipped = 0;
     loop {
         let visitor = scale_type_resolver::visitor::new((), |_, _| Outcome::Other)
+            .visit_not_found(|_| Outcome::NotFound)
             .visit_composite(|_, _, fields| match fields.next() {
                 Some(field) if fields.len() == 0 && field.name.is_none() => {
                     Outcome::Inside(field.id)
@@ -366,6 +372,7 @@ fn skip_matching_newtypes<'a, T, R: TypeResolver>(
                 return Ok(inner_value.map(|value| (value, type_id)));
             }
             Ok(Outcome::Inside(inner_type_id)) => type_id = inner_type_id,
+            Ok(Outcome::NotFound) => return Err(type_not_found(&type_id)),
             Ok(_) => return Ok(None),
             Err(e) => return Err(Error::new(ErrorKind::TypeResolvingError(format!("{e:?}")))),
         }
@@ -410,6 +417,7 @@ fn tries_only_value<T, R: TypeResolver>(
         Done(Tried),
         Inside(TypeId),
         InsideNamed(TypeId),
+        NotFound,
     }
 
     // The name of our value, until it has been lined up with a field of the same name.
@@ -423,6 +431,7 @@ fn tries_only_value<T, R: TypeResolver>(
         let tries_sequence = || if is_inside { Tried::OnlyValue } else { Tried::Nothing };
         let visitor =
             scale_type_resolver::visitor::new((), |_, _| Outcome::Done(Tried::Everything))
+                .visit_not_found(|_| Outcome::NotFound)
                 .visit_composite(|_, _, fields| match fields.next() {
                     Some(field) if fields.len() == 0 => match (name, field.name) {
                         (Some(name), Some(field_name)) if name == field_name => {
@@ -442,8 +451,9 @@ fn tries_only_value<T, R: TypeResolver>(
                 .visit_bit_sequence(|_, _, _| Outcome::Done(tries_sequence()))
                 .visit_array(|_, _, _| Outcome::Done(Tried::Nothing));
 
-        type_id = match types.resolve_type(type_id, visitor) {
+        type_id = match types.resolve_type(type_id.clone(), visitor) {
             Ok(Outcome::Done(tried)) => return Ok(tried),
+            Ok(Outcome::NotFound) => return Err(type_not_found(&type_id)),
             Ok(Outcome::Inside(inner_type_id)) => inner_type_id,
             Ok(Outcome::InsideNamed(inner_type_id)) => {
                 name = None;
@@ -564,11 +574,12 @@ fn is_primitive_type<R: TypeResolver>(
     expected: TypePrimitive,
 ) -> Result<bool, Error> {
     let (type_id, _) = find_single_entry_with_same_repr(type_id, types)?;
-    let visitor = scale_type_resolver::visitor::new((), |_, _| false)
-        .visit_primitive(|_, primitive| primitive == expected);
+    let visitor = scale_type_resolver::visitor::new((), |_, _| Ok(false))
+        .visit_not_found(|_| Err(type_not_found(&type_id)))
+        .visit_primitive(|_, primitive| Ok(primitive == expected));
     types
-        .resolve_type(type_id, visitor)
-        .map_err(|e| Error::new(ErrorKind::TypeResolvingError(format!("{e:?}"))))
+        .resolve_type(type_id.clone(), visitor)
+        .unwrap_or_else(|e| Err(Error::new(ErrorKind::TypeResolvingError(format!("{e:?}")))))
 }
 
 fn encode_bitsequence<R: TypeResolver>(
-- 
2.43.0

