From e7f3e531509b7411bf8a1973a3324873334e18d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:19 +0000
Subject: [PATCH 01/41] fix: unescape the first escape sequence of a tag value

---
 src/string/tf/escape.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index b13f02a..ccdb4ef 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -61,11 +61,8 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
     };
     let (mut new_bytes, rest) = unsafe {
         let (no_escape, rest) = tag_value.as_bytes_unsafe().split_at(first_idx);
-        // rest contains at least one byte because first_idx is a valid index.
-        let (first, rest) = rest.split_first().unwrap_unchecked();
         let mut new_bytes = Vec::with_capacity(tag_value.len() - 1);
         new_bytes.extend_from_slice(no_escape);
-        new_bytes.push(unescape_byte(first));
         (new_bytes, rest)
     };
     let mut esc = false;
-- 
2.43.0


From f253f407fbdcc61dc0fc8e3a3ea418c6bd1d8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:41 +0000
Subject: [PATCH 02/41] fix: skip tags with an invalid key instead of looping
 or misreading them

---
 src/ircmsg/tags.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/tags.rs b/src/ircmsg/tags.rs
index 8b15297..8db3f9a 100644
--- a/src/ircmsg/tags.rs
+++ b/src/ircmsg/tags.rs
@@ -87,7 +87,8 @@ impl<'a> Tags<'a> {
         // TODO: Tag bytes available.
         while !splitter.is_empty() {
             let Ok(key) = splitter.string::<Key>(false) else {
-                splitter.consume_invalid::<Key>();
+                // Not a valid key. Ignore the rest of this tag.
+                while !matches!(splitter.next_byte(), None | Some(b';')) {}
                 continue;
             };
             let value = if matches!(splitter.next_byte(), Some(b'=')) {
-- 
2.43.0


From 5adacac6549417834a2866e4abe8ac8f95b34645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:47 +0000
Subject: [PATCH 03/41] fix: do not strip leading tabs and form feeds off
 message arguments

---
 src/ircmsg/args.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index a5792d6..106328c 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -141,7 +141,10 @@ impl<'a> Args<'a> {
         let mut words = Vec::with_capacity(2);
         let mut long = None;
         loop {
-            line.consume_whitespace();
+            // Only spaces separate arguments. Other whitespace is part of them.
+            while line.peek_byte() == Some(b' ') {
+                line.next_byte();
+            }
             match line.string::<Arg>(false) {
                 Ok(arg) => words.push(arg),
                 Err(InvalidString::Colon) => {
-- 
2.43.0


From 6d46670717cc0de121a769296be0e15024f76ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:53 +0000
Subject: [PATCH 04/41] fix: reject source nicknames containing a comma instead
 of truncating them

---
 src/ircmsg/source.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/source.rs b/src/ircmsg/source.rs
index d555986..e4da8c2 100644
--- a/src/ircmsg/source.rs
+++ b/src/ircmsg/source.rs
@@ -110,7 +110,8 @@ impl<'a> Source<'a> {
                     Ok(Source { nick, userhost: Some(address) })
                 }
             }
-            _ => Ok(Source { nick, userhost: None }),
+            Some(b) => Err(ParseError::InvalidNick(crate::error::InvalidString::Byte(b))),
+            None => Ok(Source { nick, userhost: None }),
         }
     }
     /// Converts `self` into a version that owns its data.
-- 
2.43.0


From 6506ec9d1314c33b99a6472617bc3bc1d4815e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:59 +0000
Subject: [PATCH 05/41] fix: keep the whole message as the body of a CTCP-like
 message with no command

---
 src/ircmsg/ctcp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ircmsg/ctcp.rs b/src/ircmsg/ctcp.rs
index 3c09e7e..10acfaf 100644
--- a/src/ircmsg/ctcp.rs
+++ b/src/ircmsg/ctcp.rs
@@ -20,6 +20,9 @@ impl<'a> MaybeCtcp<'a, Line<'a>> {
         if splitter.next_byte() == Some(1) {
             splitter.until_byte_eq(1);
             let mut cmd = splitter.string_or_default::<Word<'_>>(false);
+            if cmd.is_empty() {
+                return MaybeCtcp { cmd, body: value };
+            }
             cmd.transform(AsciiCasemap::<true>);
             splitter.next_byte();
             let body = splitter.rest_or_default();
-- 
2.43.0


From 2f1cac631ffa4a19085202ff3950abd012ed5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:19 +0000
Subject: [PATCH 06/41] fix: make FlatMapEditGuard see and correctly edit
 elements past the sorted portion

---
 src/util/flatmap.rs | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/util/flatmap.rs b/src/util/flatmap.rs
index da32864..22c7bc7 100644
--- a/src/util/flatmap.rs
+++ b/src/util/flatmap.rs
@@ -138,7 +138,6 @@ fn get_impl<E, X: KeyExtractor<E>>(
     let (sorted, unsorted) = pairs.split_at(sorted_until);
     match sorted.binary_search_by(|v| X::extract_key(v).borrow().cmp(key)) {
         Ok(key) => Some(key),
-        Err(v) if v < sorted_until => None,
         Err(_) => unsorted
             .iter()
             .position(|v| X::extract_key(v).borrow() == key)
@@ -184,13 +183,24 @@ impl<E, X: KeyExtractor<E>> FlatMap<E, X> {
 }
 
 impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
-    collection_methods!(src);
-
+    /// Returns `true` if there are no elements, sorted or otherwise.
+    pub fn is_empty(&self) -> bool {
+        self.real_len == 0
+    }
+    /// Returns the number of elements in the `Vec`, sorted and otherwise.
+    pub fn len(&self) -> usize {
+        self.real_len
+    }
     /// Return a slice of all the elements in the `Vec`, sorted and otherwise.
     pub fn as_slice(&self) -> &[E] {
         let ptr = self.src.as_ptr();
         unsafe { std::slice::from_raw_parts(ptr, self.real_len) }
     }
+    /// Return a mutable slice of all the elements in the `Vec`, sorted and otherwise.
+    fn as_slice_mut(&mut self) -> &mut [E] {
+        let ptr = self.src.as_mut_ptr();
+        unsafe { std::slice::from_raw_parts_mut(ptr, self.real_len) }
+    }
     /// Return the index of a given element in the full `Vec`.
     fn get_idx(&self, key: &X::KeyBorrowed) -> Option<usize> {
         let sorted_until = self.src.len();
@@ -198,11 +208,11 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
     }
     pub fn get<'a>(&'a self, key: &X::KeyBorrowed) -> Option<&'a E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked(idx) })
+        Some(unsafe { self.as_slice().get_unchecked(idx) })
     }
     pub fn get_mut<'a>(&'a mut self, key: &X::KeyBorrowed) -> Option<&'a mut E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked_mut(idx) })
+        Some(unsafe { self.as_slice_mut().get_unchecked_mut(idx) })
     }
     fn push(&mut self, elem: E) -> &mut E {
         let key = X::extract_key(&elem);
@@ -226,17 +236,14 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
             }
         }
         unsafe { self.src.set_len(sorted_until) };
-        let mut ptr = self.src.as_mut_ptr();
-        unsafe {
-            ptr = ptr.add(self.real_len);
-            ptr.as_mut().unwrap_unchecked()
-        }
+        // We just pushed an element, so there is a last one.
+        unsafe { self.as_slice_mut().last_mut().unwrap_unchecked() }
     }
     pub fn insert(&mut self, elem: E) -> Option<E> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            let old_elem = unsafe { &mut self.src.get_unchecked_mut(idx) };
+            let old_elem = unsafe { self.as_slice_mut().get_unchecked_mut(idx) };
             Some(std::mem::replace(old_elem, elem))
         } else {
             self.push(elem);
@@ -258,7 +265,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            (unsafe { self.src.get_unchecked_mut(idx) }, Some(elem))
+            (unsafe { self.as_slice_mut().get_unchecked_mut(idx) }, Some(elem))
         } else {
             (self.push(elem), None)
         }
@@ -268,15 +275,19 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         // That said, removal should be infrequent, so it's probably
         // not worth adding some sort of tombstoning to the edit guard.
         let idx = self.get_idx(key)?;
+        let sorted_until = self.src.len();
+        unsafe { self.src.set_len(self.real_len) };
         let retval = self.src.swap_remove(idx);
         self.real_len -= 1;
-        unsafe { self.src.set_len(idx) };
+        // Everything past `idx` may be out of order, as is everything past the sorted portion.
+        unsafe { self.src.set_len(std::cmp::min(sorted_until, idx)) };
         Some(retval)
     }
     /// Removes all key-value pairs.
     pub fn clear(&mut self) {
-        self.src.clear();
+        unsafe { self.src.set_len(self.real_len) };
         self.real_len = 0;
+        self.src.clear();
     }
 }
 
-- 
2.43.0


From b4a2bf206c4c2059c199bfec60ec77ad5337b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:39 +0000
Subject: [PATCH 07/41] fix: do not write past the end of the buffer when
 initializing its capacity

---
 src/util/ownedslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ownedslice.rs b/src/util/ownedslice.rs
index 8139cc8..4174c83 100644
--- a/src/util/ownedslice.rs
+++ b/src/util/ownedslice.rs
@@ -87,7 +87,7 @@ impl<T: Default + Copy> OwnedSlice<T> {
     /// Sets all uninitialized values of buffer to the default value.
     pub fn init_capacity(&mut self, len: usize) {
         let mut cur = unsafe { self.0.as_ptr().add(len) };
-        let end = unsafe { cur.add(self.1) };
+        let end = unsafe { self.0.as_ptr().add(self.1) };
         let default = T::default();
         while cur < end {
             unsafe {
-- 
2.43.0


From 0ac3ee4686758601234bcc0feaa38bf1637e13af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:45 +0000
Subject: [PATCH 08/41] fix: synchronize with other ThinArc references before
 taking or dropping the value

---
 src/util/thinarc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/thinarc.rs b/src/util/thinarc.rs
index 8077a09..e98e318 100644
--- a/src/util/thinarc.rs
+++ b/src/util/thinarc.rs
@@ -32,7 +32,8 @@ impl<T> ThinArc<T> {
     }
     pub fn try_unwrap(mut self) -> Result<T, Self> {
         unsafe {
-            if self.ret_rc().load(Ordering::Relaxed) == 1 {
+            // Acquire: Synchronize with the release in other references' `Drop`.
+            if self.ret_rc().load(Ordering::Acquire) == 1 {
                 let retval = Ok(self.offsets().1.cast::<T>().read());
                 self.dealloc();
                 std::mem::forget(self);
@@ -109,6 +110,8 @@ impl<T: DynSized + ?Sized> Drop for ThinArc<T> {
     fn drop(&mut self) {
         unsafe {
             if self.ret_rc().fetch_sub(1, Ordering::Release) == 1 {
+                // Synchronize with every other reference's drop before destroying the value.
+                std::sync::atomic::fence(Ordering::Acquire);
                 let (ptr_meta, ptr_value) = self.offsets();
                 T::drop_in_place(
                     NonNull::new_unchecked(ptr_value),
-- 
2.43.0


From 93d632a415a4495c38d3b7eee939ff238c570ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:30 +0000
Subject: [PATCH 09/41] fix: do not keep a narrowed splitter's encoding for the
 range restored around it

---
 src/string/splitter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/string/splitter.rs b/src/string/splitter.rs
index ee73db0..0f68cb2 100644
--- a/src/string/splitter.rs
+++ b/src/string/splitter.rs
@@ -77,6 +77,9 @@ impl Range {
         }
         if start && end {
             self.encoding = saved.encoding;
+        } else if start || end {
+            // Anything learned about the narrower range doesn't apply to the restored one.
+            self.encoding = std::cmp::min(self.encoding, saved.encoding);
         }
     }
     pub fn constrain<'a, T>(&self, slice: &'a [T]) -> &'a [T] {
@@ -115,7 +118,8 @@ impl<T> Splitter<T> {
 
 impl<T: AsRef<[u8]>> Splitter<T> {
     fn check_encoding_inner(&mut self, accept: Encoding) -> Result<(), std::str::Utf8Error> {
-        if self.range.encoding < accept {
+        // An empty range says nothing about the range that might get restored around it.
+        if self.range.encoding < accept && !self.is_empty() {
             let slice = self.range.constrain(self.as_ref());
             let idx = slice.iter().position(|c| !c.is_ascii());
             self.range.encoding = if let Some(idx) = idx {
-- 
2.43.0


From 4f70e01ac5eefc18b65404b7a8bed2b9d536fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 10/41] fix: reject the empty string in Cmd::from_word

---
 src/string/subtypes/impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/string/subtypes/impls.rs b/src/string/subtypes/impls.rs
index 93f31b1..4cfa293 100644
--- a/src/string/subtypes/impls.rs
+++ b/src/string/subtypes/impls.rs
@@ -75,6 +75,9 @@ impl<'a> Cmd<'a> {
     /// Tries to convert `word` into an instance of this type, uppercasing where necessary.
     pub fn from_word(word: impl Into<Word<'a>>) -> Result<Self, InvalidString> {
         let mut word = word.into();
+        if word.is_empty() {
+            return Err(InvalidString::Empty);
+        }
         if let Some(inval) = word.iter().find(|b| !b.is_ascii_alphabetic()) {
             return Err(InvalidString::Byte(*inval));
         };
-- 
2.43.0


From 16079089076cf9049c9e3d0200201398dbacf2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:42 +0000
Subject: [PATCH 11/41] fix: deserialize numerics from the form they are
 serialized as

---
 src/ircmsg/numeric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/numeric.rs b/src/ircmsg/numeric.rs
index 8be4785..de1ff49 100644
--- a/src/ircmsg/numeric.rs
+++ b/src/ircmsg/numeric.rs
@@ -5,7 +5,7 @@ use std::{io::Write, num::NonZeroU8};
 /// A three-digit numeric reply code.
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(serde_derive::Serialize, serde_derive::Deserialize))]
-#[cfg_attr(feature = "serde", serde(into = "u16"))]
+#[cfg_attr(feature = "serde", serde(into = "u16", try_from = "u16"))]
 pub struct Numeric([NonZeroU8; 3]);
 
 impl AsRef<str> for Numeric {
-- 
2.43.0


From 2562d7b1f7f9960f2b13f2dd75bed2e27066bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:48 +0000
Subject: [PATCH 12/41] fix: count a long last argument in args_left

---
 src/ircmsg/args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index 106328c..314bd46 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -61,7 +61,7 @@ impl<'a> ArgsEditGuard<'a, '_> {
     /// IRC messages should contain no more than 15 arguments,
     /// but IRC software should also support any number of arguments.
     pub fn args_left(&self) -> isize {
-        15 - self.0.len() as isize
+        15 - (self.0.len() + self.1.is_some() as usize) as isize
     }
     /// Returns a mutable slice of all the arguments as a slice of [`Arg`]s,
     /// or None if the final argument is long.
-- 
2.43.0


From 4922518dbd41621f737445ea58ec95e4dec7f3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:13 +0000
Subject: [PATCH 13/41] fix: report type A modes overlapping with types C and D

---
 src/state/mode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index b420d1f..62769b1 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -330,8 +330,9 @@ impl ModeTypes {
     /// and returned as a separate set. Use [`insert_set()`][Self::insert_set] to add them back.
     pub fn from_sets(a: ModeSet, b: ModeSet, c: ModeSet, d: ModeSet) -> (Self, ModeSet) {
         let mut overlap = a.intersection(b);
+        overlap = overlap.union(a.intersection(c));
+        overlap = overlap.union(a.intersection(d));
         overlap = overlap.union(b.intersection(c));
-        overlap = overlap.union(c.intersection(d));
         overlap = overlap.union(b.intersection(d));
         overlap = overlap.union(c.intersection(d));
         (
-- 
2.43.0


From 5c387a2e9babcc485dd975c81485ba69e8f4c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:19 +0000
Subject: [PATCH 14/41] fix: accept more than one status mode without a prefix

---
 src/state/mode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index 62769b1..a9c6bb6 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -474,7 +474,7 @@ impl StatusModes {
                         format!("duplicate mode `{mode}`").into(),
                     ));
                 }
-                if prefix == prefix_b {
+                if prefix != b'\0' && prefix == prefix_b {
                     return Err(ParseError::InvalidField(
                         "PREFIX value".into(),
                         format!("duplicate prefix `{}`", prefix.escape_ascii()).into(),
-- 
2.43.0


From 77ecbeb900c23be00808c9f971faa8fba31f1ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:25 +0000
Subject: [PATCH 15/41] fix: do not read more than was asked for into a
 SecretBuf

---
 src/string/secretbuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index d7e43a6..fee324d 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -82,7 +82,7 @@ impl SecretBuf {
         self.reserve(expect);
         // Safety: This data gets initialized on creation of the SecretBuf,
         // or above.
-        let mut write_to = unsafe { self.data.as_write_slice(self.len) };
+        let mut write_to = unsafe { &mut self.data.as_write_slice(self.len)[..expect] };
         let mut bytes_read = 0usize;
         while bytes_read < expect {
             let last_read = read.read(write_to)?;
-- 
2.43.0


From 98054fb9b8cff9ed866b29d34890cbe1ebffe4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:55 +0000
Subject: [PATCH 16/41] fix: zero out the buffers of secret strings and keep
 owned and lossy forms secret

---
 src/string/bytes.rs     | 91 +++++++++++++++++++++++++++--------------
 src/string/secretbuf.rs |  2 +-
 2 files changed, 62 insertions(+), 31 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 1612ba1..d775310 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -2,7 +2,7 @@ use super::{Transform, Utf8Policy};
 use std::{
     borrow::Cow,
     ops::Deref,
-    sync::atomic::{AtomicI8, Ordering::Relaxed},
+    sync::atomic::{AtomicBool, AtomicI8, Ordering::Relaxed},
 };
 
 /// Placeholder string for when some value cannot be displayed,
@@ -46,7 +46,7 @@ unsafe impl<'a> crate::owning::MakeOwning for crate::string::Bytes<'a> {
 
     fn make_owning(&mut self) {
         if !self.is_owning() {
-            self.owning_force(false);
+            self.owning_force();
         }
     }
 }
@@ -67,7 +67,7 @@ impl<'a> Bytes<'a> {
     /// Cheaply conversts a secret value into a `Bytes`.
     pub fn from_secret(value: Vec<u8>) -> Self {
         let (ownership, value) = unsafe { OwnedBytes::from_vec(value) };
-        Bytes { value, ownership, utf8: AtomicI8::new(0), secret: true }
+        Bytes { value, ownership, utf8: AtomicI8::new(0), secret: false }.secret()
     }
     /// Returns `true` if `self` is not borrowing its data.
     pub const fn is_owning(&self) -> bool {
@@ -82,8 +82,7 @@ impl<'a> Bytes<'a> {
     /// If this string already owns its data, this method only extends its lifetime.
     pub fn owning<'b>(mut self) -> Bytes<'b> {
         if !self.is_owning() {
-            let secret = self.secret;
-            self.owning_force(secret);
+            self.owning_force();
         }
         // Lifetime extension.
         unsafe { std::mem::transmute(self) }
@@ -97,17 +96,24 @@ impl<'a> Bytes<'a> {
     /// Owning versions of these strings' buffers are zeroed out
     /// when the last reference to them is lost.
     pub fn secret(mut self) -> Self {
-        if !self.secret && self.is_owning() {
-            self.owning_force(true);
-        } else {
-            self.secret = true;
+        if let Some(owner) = &self.ownership {
+            owner.mark_secret();
         }
+        self.secret = true;
         self
     }
-    fn owning_force(&mut self, secret: bool) {
+    fn secret_if(self, secret: bool) -> Self {
+        if secret {
+            self.secret()
+        } else {
+            self
+        }
+    }
+    fn owning_force(&mut self) {
         unsafe {
             let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec());
-            *self = Bytes { value, ownership, utf8: self.utf8.load(Relaxed).into(), secret }
+            let utf8 = self.utf8.load(Relaxed).into();
+            *self = Bytes { value, ownership, utf8, secret: false }.secret_if(self.secret);
         }
     }
 
@@ -164,17 +170,14 @@ impl<'a> Bytes<'a> {
                 utf8: 1i8.into(),
                 secret: self.secret,
             },
-            Cow::Owned(o) => o.into(),
+            Cow::Owned(o) => Bytes::from(o).secret_if(self.secret),
         }
     }
     #[cfg(feature = "base64")]
     fn to_base64_impl(&self) -> Bytes<'static> {
         use base64::engine::{general_purpose::STANDARD as ENGINE, Engine};
         let encoded = ENGINE.encode(self.value);
-        unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes());
-            Bytes { value, ownership, utf8: 1i8.into(), secret: self.secret }
-        }
+        Bytes::from(encoded).secret_if(self.secret)
     }
     /// Creates a base64-encoded version of this string.
     ///
@@ -266,7 +269,8 @@ impl<'a> Bytes<'a> {
                 let utf8 = self.utf8_for_policy(tfed.utf8);
                 unsafe {
                     let (ownership, value) = OwnedBytes::from_vec(o);
-                    *self = Bytes { value, ownership, utf8: utf8.into(), secret: self.secret };
+                    *self = Bytes { value, ownership, utf8: utf8.into(), secret: false }
+                        .secret_if(self.secret);
                 }
             }
         }
@@ -277,7 +281,7 @@ impl<'a> Bytes<'a> {
     /// This operation copies data unless `self` has sole ownership of its data.
     pub fn into_vec(self) -> Vec<u8> {
         if let Some(owner) = self.ownership {
-            unsafe { owner.into_vec(self.value, self.secret) }
+            unsafe { owner.into_vec(self.value) }
         } else {
             self.value.to_vec()
         }
@@ -363,7 +367,7 @@ impl<'a> From<Bytes<'a>> for Vec<u8> {
 impl<'a> From<Bytes<'a>> for Cow<'a, [u8]> {
     fn from(value: Bytes<'a>) -> Self {
         match value.ownership {
-            Some(v) => Cow::Owned(unsafe { v.into_vec(value.value, value.secret) }),
+            Some(v) => Cow::Owned(unsafe { v.into_vec(value.value) }),
             None => Cow::Borrowed(value.value),
         }
     }
@@ -468,6 +472,22 @@ impl std::fmt::Debug for Bytes<'_> {
     }
 }
 
+/// The buffer shared between references to the same data,
+/// which is zeroed out before being deallocated if any of those references are secret.
+struct SharedBuf {
+    data: std::mem::ManuallyDrop<crate::util::OwnedSlice<u8>>,
+    secret: AtomicBool,
+}
+
+impl Drop for SharedBuf {
+    fn drop(&mut self) {
+        if *self.secret.get_mut() {
+            self.data.reinit_all();
+        }
+        unsafe { std::mem::ManuallyDrop::drop(&mut self.data) }
+    }
+}
+
 /// Implementation detail of Bytes.
 /// A reference-counted dynamically-sized byte array.
 ///
@@ -477,7 +497,7 @@ impl std::fmt::Debug for Bytes<'_> {
 /// There is also only a strong reference count, which is kept seperate.
 #[repr(transparent)]
 #[derive(Clone)]
-struct OwnedBytes(crate::util::ThinArc<crate::util::OwnedSlice<u8>>);
+struct OwnedBytes(crate::util::ThinArc<SharedBuf>);
 
 impl OwnedBytes {
     /// Converts a Vec into Self (which owns the data)
@@ -495,23 +515,34 @@ impl OwnedBytes {
         }
         let (os, len) = crate::util::OwnedSlice::from_vec(value);
         let slice = unsafe { os.as_slice(len) };
-        (Some(OwnedBytes(crate::util::ThinArc::new(os))), slice)
+        let buf = SharedBuf { data: std::mem::ManuallyDrop::new(os), secret: false.into() };
+        (Some(OwnedBytes(crate::util::ThinArc::new(buf))), slice)
+    }
+    /// Marks the buffer to be zeroed out when the last reference to it is lost.
+    pub fn mark_secret(&self) {
+        self.0.secret.store(true, Relaxed);
     }
     /// Attempts to re-use the buffer for constructing a `Vec` from `slice`.
     ///
     /// # Safety
     /// `slice` is assumed to be a slice of the data owned by self.
-    pub unsafe fn into_vec(self, slice: &[u8], secret: bool) -> Vec<u8> {
-        if let Ok(os) = self.0.try_unwrap() {
-            let (retval, destroy) = os.into_vec_with_slice(slice);
-            if secret {
-                if let Some(mut destroy) = destroy {
-                    destroy.reinit_all();
+    pub unsafe fn into_vec(self, slice: &[u8]) -> Vec<u8> {
+        match self.0.try_unwrap() {
+            Ok(mut buf) => {
+                let secret = *buf.secret.get_mut();
+                let os = unsafe { std::mem::ManuallyDrop::take(&mut buf.data) };
+                // The data has been moved out of the buffer.
+                std::mem::forget(buf);
+                let (retval, destroy) = os.into_vec_with_slice(slice);
+                if secret {
+                    if let Some(mut destroy) = destroy {
+                        destroy.reinit_all();
+                    }
                 }
+                retval
             }
-            retval
-        } else {
-            slice.to_vec()
+            // Other references still exist, so the buffer isn't destroyed yet.
+            Err(_) => slice.to_vec(),
         }
     }
 }
diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index fee324d..a1fb7b9 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -22,7 +22,7 @@ impl SecretBuf {
     }
     /// Allows read-only access to the contents of this buffer through a [`Bytes`].
     pub fn as_bytes(&self) -> Bytes<'_> {
-        Bytes::from(self.as_ref()).secret()
+        Bytes::from_bytes(self.as_ref()).secret()
     }
     /// Effeciently converts `self` into a secret [`Bytes`].
     pub fn into_bytes<'a>(mut self) -> Bytes<'a> {
-- 
2.43.0


From b2c316dff6d9ddde720253e425fd940e24b14467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:01 +0000
Subject: [PATCH 17/41] fix: keep escaped and unescaped forms of secret tag
 values secret

---
 src/string/tf/escape.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index ccdb4ef..808deff 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -50,7 +50,12 @@ pub fn escape<'a>(tag_value: impl Into<NoNul<'a>>) -> Word<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { Word::from_unchecked(new_bytes.into()) }
+    let word = unsafe { Word::from_unchecked(new_bytes.into()) };
+    if tag_value.is_secret() {
+        word.secret()
+    } else {
+        word
+    }
 }
 
 /// Returns an unescaped form of the provided tag value.
@@ -76,5 +81,10 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { NoNul::from_unchecked(new_bytes.into()) }
+    let unescaped = unsafe { NoNul::from_unchecked(new_bytes.into()) };
+    if tag_value.is_secret() {
+        unescaped.secret()
+    } else {
+        unescaped
+    }
 }
-- 
2.43.0


From c7a8b2d471e4a84cf6f99d252ee8909122159b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:38 +0000
Subject: [PATCH 18/41] fix: report EOF partway through a message as
 UnexpectedEof instead of a too long message

---
 src/ircmsg/codec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index 2d93c2f..05fedc2 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -18,6 +18,10 @@ macro_rules! read_msg {
                 if $read_expr? == 0 {
                     return Err(Error::from(ErrorKind::UnexpectedEof));
                 }
+                if $buf.len() < $limit && $buf.last() != Some(&b'\n') {
+                    // The read ended partway through a message.
+                    return Err(Error::from(ErrorKind::UnexpectedEof));
+                }
             }
             read_buf!(|$buf| $parse_expr)
         }
-- 
2.43.0


From d7bb9119532a863b90df0df4ba975b8c4722ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:53 +0000
Subject: [PATCH 19/41] fix: strip line terminators and reject too long lines
 in the tokio codecs

---
 src/ircmsg/codec.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index 05fedc2..1fbcc78 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -426,6 +426,7 @@ impl ServerCodec {
 pub(super) mod tokio_codec {
     use super::{ClientCodec, ServerCodec};
     use crate::{
+        error::ParseError,
         ircmsg::{ClientMsg, ServerMsg},
         string::Line,
     };
@@ -476,6 +477,17 @@ pub(super) mod tokio_codec {
         None
     }
 
+    /// Validates a raw line as provided by [`scroll_buf`], removing its line terminator.
+    fn to_line(raw: &[u8]) -> Result<Line<'_>, ParseError> {
+        let line = match raw {
+            [line @ .., b'\n'] => line,
+            [.., b'\0'] => raw,
+            _ => return Err(ParseError::TooLong),
+        };
+        let crs = line.iter().rev().take_while(|b| **b == b'\r').count();
+        Line::from_bytes(&line[..line.len() - crs]).map_err(ParseError::InvalidLine)
+    }
+
     impl Decoder for ClientCodec {
         type Item = ServerMsg<'static>;
         type Error = std::io::Error;
@@ -486,7 +498,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = to_line(line_raw.as_ref())?;
             Ok(Some(ServerMsg::parse(line.owning())?))
         }
     }
@@ -500,7 +512,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = to_line(line_raw.as_ref())?;
             Ok(Some(ClientMsg::parse(line.owning())?))
         }
     }
-- 
2.43.0


From 1e388e3a2aa86c9b6c8dea849efa471a06dd9689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:12 +0000
Subject: [PATCH 20/41] fix: decide who deallocates a oneshot channel with a
 single atomic operation

---
 src/client/handler/channel/oneshot.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/client/handler/channel/oneshot.rs b/src/client/handler/channel/oneshot.rs
index 806b6de..8425c2c 100644
--- a/src/client/handler/channel/oneshot.rs
+++ b/src/client/handler/channel/oneshot.rs
@@ -27,7 +27,9 @@ use std::{
 // The senders have no access to the sent value.
 
 struct Inner<T> {
-    sender_count: AtomicUsize,
+    /// The number of senders, plus one for the receiver.
+    /// Whoever decrements this to zero is responsible for deallocating.
+    ref_count: AtomicUsize,
     recver: AtomicBool,
     lock: Once,
     // Manually implement OnceLock so that we can deinit the value but keep the lock.
@@ -51,7 +53,7 @@ unsafe impl<T> Sync for Sender<T> {}
 
 impl<T> Clone for Sender<T> {
     fn clone(&self) -> Self {
-        unsafe { self.0.as_ref().sender_count.fetch_add(1, Ordering::Relaxed) };
+        unsafe { self.0.as_ref().ref_count.fetch_add(1, Ordering::Relaxed) };
         Self(self.0)
     }
 }
@@ -70,7 +72,7 @@ impl<T> Drop for Receiver<T> {
         if has_value {
             unsafe { inner_ref.value.get().as_mut().unwrap_unchecked().assume_init_drop() };
         }
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
+        if inner_ref.ref_count.fetch_sub(1, Ordering::AcqRel) == 1 {
             #[allow(dropping_references)]
             std::mem::drop(inner_ref);
             std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
@@ -81,13 +83,10 @@ impl<T> Drop for Receiver<T> {
 impl<T> Drop for Sender<T> {
     fn drop(&mut self) {
         let inner_ref = unsafe { self.0.as_ref() };
-        if inner_ref.sender_count.fetch_sub(1, Ordering::Release) == 1 {
-            #[allow(clippy::collapsible_if)]
-            if !inner_ref.recver.load(Ordering::Acquire) {
-                #[allow(dropping_references)]
-                std::mem::drop(inner_ref);
-                std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
-            }
+        if inner_ref.ref_count.fetch_sub(1, Ordering::AcqRel) == 1 {
+            #[allow(dropping_references)]
+            std::mem::drop(inner_ref);
+            std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
         }
     }
 }
@@ -95,7 +94,7 @@ impl<T> Drop for Sender<T> {
 /// Creates a new oneshot channel for sending single values.
 pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
     let inner = Box::new(Inner {
-        sender_count: AtomicUsize::new(1),
+        ref_count: AtomicUsize::new(2),
         recver: AtomicBool::new(true),
         lock: Once::new(),
         value: UnsafeCell::new(MaybeUninit::uninit()),
@@ -135,7 +134,7 @@ impl<T> Receiver<T> {
         let retval = has_value.then(|| unsafe {
             inner_ref.value.get().as_ref().unwrap_unchecked().assume_init_read()
         });
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
+        if inner_ref.ref_count.fetch_sub(1, Ordering::AcqRel) == 1 {
             #[allow(dropping_references)]
             std::mem::drop(inner_ref);
             std::mem::drop(unsafe { Box::from_raw(ptr.as_ptr()) });
-- 
2.43.0


From 2739d8c7bd9ac4c8e64bff7baff2d6d8e6cddc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:18 +0000
Subject: [PATCH 21/41] fix: keep parking through spurious wakeups and own the
 parked thread's handle

---
 src/client/handler/channel/parker.rs | 61 ++++++++++++++++------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/client/handler/channel/parker.rs b/src/client/handler/channel/parker.rs
index f4f6053..d4720b8 100644
--- a/src/client/handler/channel/parker.rs
+++ b/src/client/handler/channel/parker.rs
@@ -29,17 +29,21 @@ pub fn new<S>(sender: S) -> (Unparker<S>, Parker) {
     (Unparker(sender, ManuallyDrop::new(arc)), Parker(weak))
 }
 
+/// Unparks the thread that a [`Parker`] registered, if any.
+///
+/// This takes ownership of the thread handle at `ptr`.
+fn unpark_ptr(ptr: *mut Thread) {
+    if !ptr.is_null() && ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
+        unsafe { Box::from_raw(ptr) }.unpark();
+    }
+}
+
 impl<S> Drop for Unparker<S> {
     fn drop(&mut self) {
         let Some(arc) = Arc::into_inner(unsafe { ManuallyDrop::take(&mut self.1) }) else {
             return;
         };
-        let ptr = arc.into_inner();
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
-        }
+        unpark_ptr(arc.into_inner());
     }
 }
 
@@ -49,12 +53,7 @@ impl<S> Unparker<S> {
     ///
     /// This generally doesn't need to be called manually unless `S` is not a sender.
     pub fn unpark(&self) {
-        let ptr = self.1.swap(unsafe { SKIP_PARKING.as_mut_ptr() }, Ordering::AcqRel);
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
-        }
+        unpark_ptr(self.1.swap(unsafe { SKIP_PARKING.as_mut_ptr() }, Ordering::AcqRel));
     }
 }
 
@@ -81,26 +80,34 @@ impl Parker {
         let Some(strong) = self.0.upgrade() else {
             return;
         };
-        let mut th = std::thread::current();
+        // Whoever removes the pointer from the shared location owns the thread handle.
+        let th = Box::into_raw(Box::new(std::thread::current()));
         if strong
-            .compare_exchange(
-                std::ptr::null_mut(),
-                &mut th as *mut Thread,
-                Ordering::AcqRel,
-                Ordering::Acquire,
-            )
-            .is_ok()
+            .compare_exchange(std::ptr::null_mut(), th, Ordering::AcqRel, Ordering::Acquire)
+            .is_err()
         {
-            if Arc::into_inner(strong).is_none() {
-                std::thread::park();
-            } else {
+            // Already unparked.
+            std::mem::drop(unsafe { Box::from_raw(th) });
+            strong.store(std::ptr::null_mut(), Ordering::Release);
+            return;
+        }
+        let mut strong = strong;
+        loop {
+            if Arc::into_inner(strong).is_some() {
                 // No unparkers left!
+                std::mem::drop(unsafe { Box::from_raw(th) });
+                return;
+            }
+            std::thread::park();
+            strong = match self.0.upgrade() {
+                Some(strong) => strong,
+                None => return,
+            };
+            if strong.load(Ordering::Acquire) != th {
+                strong.store(std::ptr::null_mut(), Ordering::Release);
                 return;
             }
+            // Still registered, so this was a spurious wakeup.
         }
-        let Some(strong) = self.0.upgrade() else {
-            return;
-        };
-        strong.store(std::ptr::null_mut(), Ordering::Release);
     }
 }
-- 
2.43.0


From 832c16c29449813ebaf1ddf71b6beb7aab3f63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:00 +0000
Subject: [PATCH 22/41] fix: require authentication when authenticators are
 configured, not when they aren't

---
 src/client/register.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/register.rs b/src/client/register.rs
index 6691694..999b3ce 100644
--- a/src/client/register.rs
+++ b/src/client/register.rs
@@ -109,7 +109,7 @@ impl<O> Register<O> {
         let nicks = self.register_msgs(opts, sink);
         let caps = (self.caps)(opts);
         let (auths, mut needs_auth) = (self.auth)(opts);
-        needs_auth &= auths.is_empty();
+        needs_auth &= !auths.is_empty();
         Handler::new(nicks, caps, needs_auth, auths)
     }
 }
-- 
2.43.0


From 0f1c5a9ab35b1594ac3d5f2830a6330ec1ca64d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:50 +0000
Subject: [PATCH 23/41] fix: only reply to CTCP queries sent using PRIVMSG

---
 src/client/handlers/autoreply.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/handlers/autoreply.rs b/src/client/handlers/autoreply.rs
index 71fc218..194b3c1 100644
--- a/src/client/handlers/autoreply.rs
+++ b/src/client/handlers/autoreply.rs
@@ -42,6 +42,9 @@ impl Handler for CtcpVersion {
         _: crate::client::channel::SenderRef<'_, Self::Value>,
     ) -> std::ops::ControlFlow<()> {
         // TODO: Should probably consider length limits.
+        if msg.kind != PRIVMSG {
+            return std::ops::ControlFlow::Continue(());
+        }
         let Ok(msg) = msg.parse_as(PRIVMSG) else {
             return std::ops::ControlFlow::Continue(());
         };
-- 
2.43.0


From 0d1fa40e9331e3bca1c25951a1b9237ae8c8e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:56 +0000
Subject: [PATCH 24/41] fix: drop a single nick from the generator when it's
 the invalid one, not otherwise

---
 src/client/nick.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/nick.rs b/src/client/nick.rs
index 61ad5f1..afc8593 100644
--- a/src/client/nick.rs
+++ b/src/client/nick.rs
@@ -76,8 +76,8 @@ impl NickGen for Nick<'static> {
     }
 
     fn handle_invalid(self: Box<Self>, nick: &Nick<'static>) -> Option<Box<dyn NickGen>> {
-        let eq = *nick == *self;
-        eq.then_some(self)
+        let ne = *nick != *self;
+        ne.then_some(self)
     }
 }
 
-- 
2.43.0


From 31a9924a9ebd2cb8e8377ea12b733716cfb587a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:01 +0000
Subject: [PATCH 25/41] fix: generate hexadecimal digits for Base16 nick
 suffixes

---
 src/client/nick/suffix.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 6ed8285..4600178 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -37,15 +37,15 @@ impl SuffixType {
             SuffixType::Base8 => nick.try_push(b'0' + (num & 7)),
             SuffixType::Base10 => nick.try_push(b'0' + num % 10),
             SuffixType::Base16(uc) => nick.try_push(match num & 15 {
-                num if *uc && num > 9 => b'A' + num,
-                num if !uc && num > 9 => b'a' + num,
+                num if *uc && num > 9 => b'A' + (num - 10),
+                num if !uc && num > 9 => b'a' + (num - 10),
                 num => b'0' + num,
             }),
             SuffixType::NonZeroBase8 => nick.try_push(b'1' + (num % 7)),
             SuffixType::NonZeroBase10 => nick.try_push(b'1' + num % 9),
             SuffixType::NonZeroBase16(uc) => nick.try_push(match num % 15 {
-                num if *uc && num > 8 => b'A' + num,
-                num if !uc && num > 8 => b'a' + num,
+                num if *uc && num > 8 => b'A' + (num - 9),
+                num if !uc && num > 8 => b'a' + (num - 9),
                 num => b'1' + num,
             }),
             SuffixType::Choice(opts) if !opts.is_empty() => {
-- 
2.43.0


From 5785b8cbd886d9ea09285f887dfb9b2170f26752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:06 +0000
Subject: [PATCH 26/41] fix: do not underflow when no sequential nick suffix
 has any options

---
 src/client/nick/suffix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 4600178..42fe3b7 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -147,7 +147,8 @@ impl NickTransformer for Suffix {
                     .suffixes
                     .iter()
                     .fold(0u8, |count, suffix| count.saturating_add(suffix.variance()));
-                (0, limit)
+                // Nick generators always yield at least one nick.
+                (0, std::cmp::max(1, limit))
             }
         };
         Box::new(SuffixGen { cfg: self.clone(), prefix, state: seed, limit })
-- 
2.43.0


From 464316191460bf54260048b5c819a1597c54b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:11 +0000
Subject: [PATCH 27/41] fix: discard partial SASL challenges when switching
 mechanisms

---
 src/client/auth/handler.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index 981a00c..e8d34b5 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -115,6 +115,11 @@ impl Handler {
         let logic = queue.pop()?;
         Some(Self::new(logic, queue))
     }
+    /// Switches to a different [`SaslLogic`], discarding any partial challenge.
+    fn set_logic(&mut self, logic: Box<dyn SaslLogic>) {
+        self.logic = logic;
+        self.decoder = crate::string::base64::ChunkDecoder::new(400);
+    }
     /// Creates an auth message for the current [`SaslLogic`].
     ///
     /// If you are manually driving this handler, this should typically
@@ -138,7 +143,7 @@ impl Handler {
         if supported(&self.logic.name()) {
             None
         } else if let Some(new_logic) = self.queue.pop() {
-            self.logic = new_logic;
+            self.set_logic(new_logic);
             Some(true)
         } else {
             Some(false)
@@ -177,7 +182,7 @@ impl Handler {
                         let name = self.logic.name();
                         self.queue.retain(&|ln| name != *ln);
                         return if let Some(new_logic) = self.queue.pop() {
-                            self.logic = new_logic;
+                            self.set_logic(new_logic);
                             // We can continue, but we need to wait for the server to
                             // acknowledge that we're stopping before sending AUTHENTICATE.
                             Ok(false)
@@ -198,7 +203,7 @@ impl Handler {
                 // In a more account-aware system, could purge all authenticators that are
                 // meant to log in to the same account on a 902.
                 if let Some(next_logic) = self.queue.pop() {
-                    self.logic = next_logic;
+                    self.set_logic(next_logic);
                     sink.send(self.auth_msg());
                     Ok(false)
                 } else {
-- 
2.43.0


From b53a58f1db8936cf2ab9690043604dd6838e976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:17 +0000
Subject: [PATCH 28/41] fix: parse the comma-separated mechanism list of
 RPL_SASLMECHS

---
 src/client/auth/handler.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index e8d34b5..18aba7e 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -226,16 +226,16 @@ impl Handler {
             // Server is telling us something about the supported mechanisms.
             "908" => {
                 // Let's assume that these apply to all accounts we might try to log in to.
-                #[allow(clippy::mutable_key_type)]
+                let mechs = msg.args.split_last().0.last();
                 let set: std::collections::BTreeSet<_> =
-                    msg.args.split_last().0.iter().map(|a| a.clone().owning()).collect();
-                self.queue.retain(&|ln| set.contains(ln));
+                    mechs.iter().flat_map(|a| a.split(|b| *b == b',')).collect();
+                self.queue.retain(&|ln| set.contains(ln.as_bytes()));
                 // If the mechanism is NOT supported,
                 // the server needs to error with a 904, which causes this handler to
                 // cycle to the next authenticator.
                 // However, we can short-circuit this if the queue is empty AND
                 // the authenticator is unsupported.
-                if self.queue.is_empty() && !set.contains(&self.logic.name()) {
+                if self.queue.is_empty() && !set.contains(self.logic.name().as_bytes()) {
                     Err(HandlerError::Unsupported)
                 } else {
                     Ok(false)
-- 
2.43.0


From a95907094aeebb7bca6cf45bb1b0a406905e2395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:48 +0000
Subject: [PATCH 29/41] fix: do not fail registration on SASL errors received
 after giving up on SASL

---
 src/client/register/handler.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 3ae3071..bf57a4c 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -250,11 +250,8 @@ impl Handler {
         if crate::client::handlers::pong(msg, sink.borrow_mut()) {
             return Ok(None);
         }
-        // Ignore errors related to SASL.
-        let mut ignore_sasl = false;
         #[cfg(feature = "base64")]
         if let HandlerState::Sasl(sasl) = &mut self.state {
-            ignore_sasl = true;
             match sasl.handle(msg, sink.borrow_mut()) {
                 Ok(false) => (),
                 Ok(true) => {
@@ -415,7 +412,9 @@ impl Handler {
                 }
                 Ok(None)
             }
-            "902" | "904" | "905" | "906" | "907" if ignore_sasl => Ok(None),
+            // Ignore errors related to SASL.
+            // These may also arrive after the SASL handler has already given up.
+            "902" | "904" | "905" | "906" | "907" => Ok(None),
             "CAP" => {
                 use crate::client::cap;
                 let cap_msg = cap::ServerMsgArgs::parse(&msg.args.clone().owning())
-- 
2.43.0


From b38d3b83d2d08bf430cec78dccdc58e53860439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:00 +0000
Subject: [PATCH 30/41] fix: remove the read time limit from sync connections
 when there's no deadline

---
 src/client/conn/time.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index 5bc6e37..cd2b669 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -163,6 +163,9 @@ impl<'a, C: super::Connection> TimeLimitedSync<'a, C> {
                     "collective read time limit elapsed",
                 ));
             }
+        } else {
+            // Undo any time limit set by an earlier deadline.
+            self.conn.set_read_timeout(None)?;
         }
         Ok(())
     }
-- 
2.43.0


From d745c9eb5b54fd92d46de0e618ddfdd077c6b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:07 +0000
Subject: [PATCH 31/41] fix: apply the write time limit of sync connections
 before writing

---
 src/client/conn/sync.rs |  1 +
 src/client/conn/time.rs | 16 ++++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/client/conn/sync.rs b/src/client/conn/sync.rs
index 7cff4ac..0490df6 100644
--- a/src/client/conn/sync.rs
+++ b/src/client/conn/sync.rs
@@ -352,6 +352,7 @@ impl<C: Connection, S> crate::client::Client<C, S> {
             let _ = ClientCodec::write_to(&popped, &mut self.conn.buf_o);
             self.conn.buf_o.extend_from_slice(b"\r\n");
         }
+        self.logic.timeout.update_write_timeout(&mut self.conn.conn)?;
         let result = self.conn.conn.as_write().write_all(&self.conn.buf_o);
         self.conn.buf_o.clear();
         result?;
diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index cd2b669..3b03b5c 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -130,6 +130,14 @@ impl TimeLimits {
         self.write = timeout.map(|t| std::cmp::max(t, Duration::from_secs(1)));
         self
     }
+    /// Updates the write timeout on a stream, if necessary.
+    pub fn update_write_timeout(&mut self, conn: &mut impl WriteTimeout) -> std::io::Result<()> {
+        if self.update_write {
+            conn.set_write_timeout(self.write)?;
+            self.update_write = false;
+        }
+        Ok(())
+    }
 }
 
 pub(super) struct TimeLimitedSync<'a, C> {
@@ -143,12 +151,8 @@ impl<'a, C: super::Connection> TimeLimitedSync<'a, C> {
         timeouts: &mut TimeLimits,
         write_after: Option<Duration>,
     ) -> std::io::Result<(Self, bool)> {
-        let TimeLimits { read, write, update_write, .. } = *timeouts;
-        if update_write {
-            conn.set_write_timeout(write)?;
-            timeouts.update_write = false;
-        }
-        let (read, constrained) = timeout_fallback(write_after, read);
+        timeouts.update_write_timeout(conn)?;
+        let (read, constrained) = timeout_fallback(write_after, timeouts.read);
         let read = read.and_then(|dur| Instant::now().checked_add(dur));
         Ok((TimeLimitedSync { conn, read }, constrained))
     }
-- 
2.43.0


From 0d5440f2555c21fd2bdcb5b182995aae34b3bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:13 +0000
Subject: [PATCH 32/41] fix: do not restart the write time limit of async
 connections every poll

---
 src/client/conn/time.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index 3b03b5c..65d9f81 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -215,21 +215,23 @@ impl<'a, C: super::Connection> std::io::BufRead for TimeLimitedSync<'a, C> {
 pub(super) struct TimeLimitedTokio<'a, C> {
     conn: &'a mut C,
     write: Option<Duration>,
+    /// The time limit on the current stalled write operation, if any.
+    sleep: Option<std::pin::Pin<Box<tokio::time::Sleep>>>,
 }
 
 #[cfg(feature = "tokio")]
 impl<'a, C: super::ConnectionTokio> TimeLimitedTokio<'a, C> {
     pub fn new(conn: &'a mut C, timeouts: &TimeLimits) -> Self {
-        TimeLimitedTokio { conn, write: timeouts.write }
+        TimeLimitedTokio { conn, write: timeouts.write, sleep: None }
     }
     fn poll_write_timeout(
-        self: std::pin::Pin<&mut Self>,
+        mut self: std::pin::Pin<&mut Self>,
         cx: &mut std::task::Context<'_>,
     ) -> std::task::Poll<std::io::Error> {
         if let Some(timeout) = self.write {
             use std::future::Future;
-            let sleeper = std::pin::pin!(tokio::time::sleep(timeout));
-            if sleeper.poll(cx).is_ready() {
+            let sleeper = self.sleep.get_or_insert_with(|| Box::pin(tokio::time::sleep(timeout)));
+            if sleeper.as_mut().poll(cx).is_ready() {
                 return std::task::Poll::Ready(std::io::Error::new(
                     std::io::ErrorKind::TimedOut,
                     "async write time limit elapsed",
@@ -274,6 +276,7 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
     ) -> std::task::Poll<Result<usize, std::io::Error>> {
         let writer = std::pin::Pin::new(self.conn.as_write());
         if let std::task::Poll::Ready(v) = writer.poll_write(cx, buf) {
+            self.sleep = None;
             return std::task::Poll::Ready(v);
         }
         self.poll_write_timeout(cx).map(Err)
@@ -285,6 +288,7 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
     ) -> std::task::Poll<Result<(), std::io::Error>> {
         let writer = std::pin::Pin::new(self.conn.as_write());
         if let std::task::Poll::Ready(v) = writer.poll_flush(cx) {
+            self.sleep = None;
             return std::task::Poll::Ready(v);
         }
         self.poll_write_timeout(cx).map(Err)
-- 
2.43.0


From 916a4ce2308c56e03ed5ca5bcbb5d5860745a127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:19 +0000
Subject: [PATCH 33/41] fix: reset the assumed source length along with the
 rest of the client state

---
 src/client/logic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/logic.rs b/src/client/logic.rs
index dd64cc2..c0e65cb 100644
--- a/src/client/logic.rs
+++ b/src/client/logic.rs
@@ -222,6 +222,7 @@ impl ClientState {
     /// Clears all state.
     pub(super) fn clear(&mut self) {
         self.state.clear();
+        self.source_len = DEFAULT_SOURCE_LEN;
     }
     /// Returns the length that clients should assume for the length of their `source` fields.
     pub fn source_len(&self) -> NonZeroUsize {
-- 
2.43.0


From 4c09fb5561606778225e330a05e9d888dd322b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:25 +0000
Subject: [PATCH 34/41] fix: use the ISUPPORT received during registration for
 the assumed source length

---
 src/client/register/handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index bf57a4c..2633dad 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -58,7 +58,6 @@ impl Registration {
     pub fn save(self, state: &mut crate::client::ClientState) {
         use crate::client::state::*;
         let source = Source { nick: self.nick, userhost: self.userhost };
-        state.update_source_len_from(Some(&source), true);
         state.insert::<ClientSource>(source);
         state.insert::<Account>(self.account);
         state.insert::<Caps>(self.caps);
@@ -69,6 +68,8 @@ impl Registration {
         if let Some(version) = self.version {
             state.insert::<ServerVersion>(version);
         }
+        // This depends on the values of `ClientSource` and `ISupport`.
+        state.update_source_len();
     }
 }
 
-- 
2.43.0


From 5d1be7fe20c7ff820c1ca11b23c7eb87feb88dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:17 +0000
Subject: [PATCH 35/41] fix: keep TrackClientSource running while the client
 source is unknown

---
 src/client/handlers/track.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/client/handlers/track.rs b/src/client/handlers/track.rs
index 74aab7c..f9fccfb 100644
--- a/src/client/handlers/track.rs
+++ b/src/client/handlers/track.rs
@@ -31,11 +31,8 @@ impl TrackClientSource {
     }
 }
 
-fn get_client_source(state: &mut ClientState) -> ControlFlow<(), &mut Source<'static>> {
-    match state.get_mut::<ClientSource>() {
-        Some(v) => ControlFlow::Continue(v),
-        None => ControlFlow::Break(()),
-    }
+fn get_client_source(state: &mut ClientState) -> Option<&mut Source<'static>> {
+    state.get_mut::<ClientSource>()
 }
 
 // TODO: Would be nice to extract RPL_USERHOST parsing.
@@ -96,7 +93,9 @@ impl Handler for TrackClientSource {
             // RPL_USERHOST
             "302" => {
                 if let Some([_, items @ ..]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = get_client_source(state) else {
+                        return ControlFlow::Continue(());
+                    };
                     for item in items {
                         let userhost = match parse_userhost_item(item.clone(), &src.nick) {
                             Ok(uh) => uh,
@@ -112,7 +111,9 @@ impl Handler for TrackClientSource {
             }
             "NICK" => {
                 if let Some([nick]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = get_client_source(state) else {
+                        return ControlFlow::Continue(());
+                    };
                     let Ok(nick) = Nick::from_arg(nick.clone()) else {
                         // TODO: Log warning?
                         return ControlFlow::Continue(());
@@ -129,7 +130,9 @@ impl Handler for TrackClientSource {
             }
             "CHGHOST" => {
                 if let Some([user, host]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = get_client_source(state) else {
+                        return ControlFlow::Continue(());
+                    };
                     match msg.source.as_ref() {
                         Some(m_src) if m_src.nick == src.nick => {
                             let user = match User::from_super(user.clone()) {
-- 
2.43.0


From 441ddfc0d2efb2ac94c95a799c59504dc9bf5d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:58 +0000
Subject: [PATCH 36/41] fix: read RPL_USERHOST replies that share the last
 argument

---
 src/client/handlers/track.rs | 38 +++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/client/handlers/track.rs b/src/client/handlers/track.rs
index f9fccfb..ddb435c 100644
--- a/src/client/handlers/track.rs
+++ b/src/client/handlers/track.rs
@@ -10,7 +10,7 @@ use crate::{
     error::ParseError,
     ircmsg::{ClientMsg, Source, UserHost},
     names::cmd::USERHOST,
-    string::{Arg, Nick, User, Word},
+    string::{Line, Nick, Splitter, User, Word},
 };
 
 /// Handler for automatically updating this client's [`ClientSource`].
@@ -40,10 +40,10 @@ fn get_client_source(state: &mut ClientState) -> Option<&mut Source<'static>> {
 ///
 /// Returns `Err(None)` if the provided nick was not found in the reply's arguments.
 fn parse_userhost_item<'a>(
-    item: Arg<'a>,
+    item: Word<'a>,
     nick: &Nick<'_>,
 ) -> Result<UserHost<'a>, Option<ParseError>> {
-    let mut splitter = crate::string::Splitter::new(item);
+    let mut splitter = Splitter::new(item);
     match splitter.save_end().until_byte_eq(b'=').until_byte_eq(b'*').string::<Nick>(true) {
         Ok(n) if n == *nick => (),
         _ => return Err(None),
@@ -92,20 +92,26 @@ impl Handler for TrackClientSource {
         match msg.kind.as_str() {
             // RPL_USERHOST
             "302" => {
-                if let Some([_, items @ ..]) = msg.args.all() {
-                    let Some(src) = get_client_source(state) else {
-                        return ControlFlow::Continue(());
+                let Some(src) = get_client_source(state) else {
+                    return ControlFlow::Continue(());
+                };
+                // The replies are separated by spaces within the last argument.
+                let (words, last) = msg.args.split_last();
+                let words = words.iter().skip(1).map(|w| w.clone().into());
+                let mut last = Splitter::<Line>::new(last.cloned().unwrap_or_default());
+                let last = std::iter::from_fn(|| {
+                    last.consume_whitespace();
+                    last.string::<Word>(false).ok().filter(|w| !w.is_empty())
+                });
+                for item in words.chain(last) {
+                    let userhost = match parse_userhost_item(item, &src.nick) {
+                        Ok(uh) => uh,
+                        // TODO: Log warning on ParseError?
+                        Err(_) => continue,
                     };
-                    for item in items {
-                        let userhost = match parse_userhost_item(item.clone(), &src.nick) {
-                            Ok(uh) => uh,
-                            // TODO: Log warning on ParseError?
-                            Err(_) => continue,
-                        };
-                        src.userhost = Some(userhost.owning());
-                        state.update_source_len();
-                        break;
-                    }
+                    src.userhost = Some(userhost.owning());
+                    state.update_source_len();
+                    break;
                 }
                 // TODO: Log warning on invalid argument structure?
             }
-- 
2.43.0


From b0ca81cfec757ccf6c4c50180b5ded22f7624da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:28 +0000
Subject: [PATCH 37/41] fix: do not free a parked thread's handle that an
 unparker already took

---
 src/client/handler/channel/parker.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/client/handler/channel/parker.rs b/src/client/handler/channel/parker.rs
index d4720b8..50e408b 100644
--- a/src/client/handler/channel/parker.rs
+++ b/src/client/handler/channel/parker.rs
@@ -93,9 +93,11 @@ impl Parker {
         }
         let mut strong = strong;
         loop {
-            if Arc::into_inner(strong).is_some() {
-                // No unparkers left!
-                std::mem::drop(unsafe { Box::from_raw(th) });
+            if let Some(ptr) = Arc::into_inner(strong) {
+                // No unparkers left! One of them may have taken the handle before it was dropped.
+                if ptr.into_inner() == th {
+                    std::mem::drop(unsafe { Box::from_raw(th) });
+                }
                 return;
             }
             std::thread::park();
-- 
2.43.0


From 9ae39e5aa5c266ccd9db9f8278cd07f197a2df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:50 +0000
Subject: [PATCH 38/41] fix: log in when the sasl capability is advertised
 without mechanisms

---
 src/client/register/handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 2633dad..c7d48c6 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -432,7 +432,8 @@ impl Handler {
                             use crate::names::cap::{SASL, STS};
                             // Filter SASL mechanisms.
                             match self.reg.caps.get_parsed(SASL) {
-                                Some(Ok(mechs)) => {
+                                // A server may advertise SASL without listing mechanisms.
+                                Some(Ok(mechs)) if !mechs.is_empty() => {
                                     auths.retain(&|mech| mechs.contains(mech.as_bytes()));
                                 }
                                 Some(_) => (),
-- 
2.43.0


From 822d7e1781cecaf72e45a9e7f0cc3fdeee3c39b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:56 +0000
Subject: [PATCH 39/41] fix: report missing capabilities on servers without
 capability negotiation

---
 src/client/register/handler.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index c7d48c6..6e5a3f5 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -288,7 +288,14 @@ impl Handler {
                         self.reg.source = Some(source.clone().owning_merged());
                     }
                 }
-                self.state = HandlerState::AwaitEnd;
+                let state = std::mem::replace(&mut self.state, HandlerState::AwaitEnd);
+                if let HandlerState::Req(reqs, _) = state {
+                    // The server doesn't support capability negotiation.
+                    let missing = reqs.require(&BTreeSet::new());
+                    if !missing.is_empty() {
+                        return Err(HandlerError::MissingCaps(missing));
+                    }
+                }
                 Ok(None)
             }
             "004" if matches!(self.state, HandlerState::AwaitEnd) => {
-- 
2.43.0


From 04669aa88c91acbd98cbdf945ae3c10526e40a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:58 +0000
Subject: [PATCH 40/41] fix: zero out secret buffers that are empty when
 converted into Bytes

---
 src/string/secretbuf.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index a1fb7b9..f30662c 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -26,6 +26,11 @@ impl SecretBuf {
     }
     /// Effeciently converts `self` into a secret [`Bytes`].
     pub fn into_bytes<'a>(mut self) -> Bytes<'a> {
+        if self.is_empty() {
+            // The unused capacity may still contain sensitive data,
+            // and empty `Bytes` don't own a buffer that they could zero out.
+            return Bytes::empty().secret();
+        }
         let data = unsafe { std::mem::ManuallyDrop::take(&mut self.data) };
         let len = self.len;
         std::mem::forget(self);
-- 
2.43.0


From b9ab245430fce7c3a55968fd2689fde5389e0ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:05 +0000
Subject: [PATCH 41/41] fix: do not leave behind copies of secrets when
 replacing invalid UTF-8

---
 src/string/bytes.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index d775310..fdb6eb4 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -201,11 +201,13 @@ impl<'a> Bytes<'a> {
         }
     }
     unsafe fn utf8_cow(&self) -> Cow<'a, str> {
+        let from_utf8_lossy =
+            if self.secret { from_utf8_lossy_secret } else { String::from_utf8_lossy };
         match self.is_utf8_lazy() {
             Some(true) => Cow::Borrowed(unsafe { std::str::from_utf8_unchecked(self.value) }),
-            Some(false) => String::from_utf8_lossy(self.value),
+            Some(false) => from_utf8_lossy(self.value),
             None => {
-                let sl = String::from_utf8_lossy(self.value);
+                let sl = from_utf8_lossy(self.value);
                 let utf8 = if matches!(&sl, Cow::Borrowed(_)) { 1i8 } else { -1i8 };
                 self.utf8.store(utf8, Relaxed);
                 sl
@@ -288,6 +290,30 @@ impl<'a> Bytes<'a> {
     }
 }
 
+/// [`String::from_utf8_lossy`], but without reallocations that leave behind partial copies.
+fn from_utf8_lossy_secret(mut value: &[u8]) -> Cow<'_, str> {
+    let mut retval = String::new();
+    loop {
+        match std::str::from_utf8(value) {
+            Ok(s) if retval.is_empty() => return Cow::Borrowed(s),
+            Ok(s) => {
+                retval.push_str(s);
+                return Cow::Owned(retval);
+            }
+            Err(e) => {
+                // Every invalid byte could become a three-byte replacement character.
+                if retval.is_empty() {
+                    retval.reserve_exact(value.len() * 3);
+                }
+                let (valid, rest) = value.split_at(e.valid_up_to());
+                retval.push_str(unsafe { std::str::from_utf8_unchecked(valid) });
+                retval.push(std::char::REPLACEMENT_CHARACTER);
+                value = &rest[e.error_len().unwrap_or(rest.len())..];
+            }
+        }
+    }
+}
+
 impl<'a> Deref for Bytes<'a> {
     type Target = [u8];
 
-- 
2.43.0

