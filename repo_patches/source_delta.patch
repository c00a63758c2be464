From dd28c149e363e73fe5cf94db48e1284b41e7909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 1/3] fix: validate the index before accepting an empty
 replacement

replace_range, try_insert_str and insert_str_truncate returned Ok(()) for
an out of bounds or non char boundary index whenever the text to insert was
empty (or was truncated to nothing because the string is full), instead of
the documented OutOfBounds/Utf8.
---
 src/arraystring.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arraystring.rs b/src/arraystring.rs
index e3d96ae..ba9232c 100644
--- a/src/arraystring.rs
+++ b/src/arraystring.rs
@@ -861,14 +861,14 @@ where
             with.as_ref().len(),
             with.as_ref()
         );
-        if start == end && str.is_empty() {
-            return Ok(());
-        }
         is_inside_boundary(start, end)?;
         is_inside_boundary(end, self.len())?;
         is_inside_boundary(str.len(), Self::capacity())?;
         is_char_boundary(self, start)?;
         is_char_boundary(self, end)?;
+        if start == end && str.is_empty() {
+            return Ok(());
+        }
         // Will never overflow since start < end and str.len() cannot be bigger than 255
         is_inside_boundary(self.len() + str.len() + start - end, Self::capacity())?;
 
-- 
2.43.0


From 2fbf3446da2f21fbb49f1bb4ee4d8c42df5fb1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 2/3] fix: deserialize from any string, not only from borrowed
 ones

Deserialize went through <&str>, so every deserializer that cannot lend the
input failed: JSON strings containing an escape sequence (which is what our
own Serialize emits for quotes, backslashes and control characters),
from_reader, from_value, ... Use a visitor, as String does.
---
 src/integration.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/integration.rs b/src/integration.rs
index 9e1b32f..11a3859 100644
--- a/src/integration.rs
+++ b/src/integration.rs
@@ -80,6 +80,8 @@ mod serde_impl {
     pub use crate::{arraystring::sealed::ValidCapacity, prelude::*};
     #[cfg(all(feature = "no-panic", not(debug_assertions)))]
     use no_panic::no_panic;
+    use core::{fmt, str};
+    use serde::de::{self, Unexpected, Visitor};
     pub use serde::{de::Deserializer, ser::Serializer, Deserialize, Serialize};
 
     impl<const N: usize> Serialize for ArrayString<N>
@@ -100,7 +102,34 @@ mod serde_impl {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
         fn deserialize<D: Deserializer<'a>>(des: D) -> Result<Self, D::Error> {
-            <&str>::deserialize(des).map(Self::from_str_truncate)
+            des.deserialize_str(TruncateVisitor)
+        }
+    }
+
+    /// Accepts every string form a `Deserializer` can hand over (borrowed, transient or owned), like `String` does
+    struct TruncateVisitor<const N: usize>;
+
+    impl<'a, const N: usize> Visitor<'a> for TruncateVisitor<N>
+    where
+        ArrayString<N>: ValidCapacity,
+    {
+        type Value = ArrayString<N>;
+
+        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
+            f.write_str("a string")
+        }
+
+        #[inline]
+        fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
+            Ok(ArrayString::from_str_truncate(s))
+        }
+
+        #[inline]
+        fn visit_bytes<E: de::Error>(self, bytes: &[u8]) -> Result<Self::Value, E> {
+            match str::from_utf8(bytes) {
+                Ok(s) => Ok(ArrayString::from_str_truncate(s)),
+                Err(_) => Err(E::invalid_value(Unexpected::Bytes(bytes), &self)),
+            }
         }
     }
 
-- 
2.43.0


From ef976ef79e313335b1d4bf9e0e7c2c49d97b0dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 3/3] fix: honour width, fill, alignment and precision when
 displaying

Display wrote the text through a fresh formatter, dropping every format
option: {:>8} and {:.2} printed the bare text, unlike str and String.
---
 src/implementations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/implementations.rs b/src/implementations.rs
index 04f3daf..2502c49 100644
--- a/src/implementations.rs
+++ b/src/implementations.rs
@@ -227,7 +227,7 @@ where
     #[inline]
     #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-        write!(f, "{}", self.as_str())
+        Display::fmt(self.as_str(), f)
     }
 }
 
-- 
2.43.0

