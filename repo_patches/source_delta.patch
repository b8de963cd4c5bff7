From d485b9102308d01c199d248cbc126474c99799a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 01/11] fix: do not drop uninitialised memory nor leak values
 when parsing arrays

Each element was assigned through a pointer to uninitialised memory, which
first dropped the garbage found there (undefined behaviour for any element
type that owns something), and the elements parsed before a failure leaked.
---
 nommy/src/impls.rs | 21 ++++++++++-----------
 nommy/src/lib.rs   |  2 --
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/nommy/src/impls.rs b/nommy/src/impls.rs
index 2364f9e..85b3c09 100644
--- a/nommy/src/impls.rs
+++ b/nommy/src/impls.rs
@@ -1,7 +1,7 @@
 //! Implemtations of [`Parse`] and [`Peek`] for types in
 //! the rust standard library
 use crate::{eyre, Buffer, Context, Parse};
-use std::mem::MaybeUninit;
+use std::convert::TryInto;
 
 /// Result is `None` if parsing `P` fails, otherwise, result is `Some(p)`
 impl<P: Parse<T>, T> Parse<T> for Option<P> {
@@ -155,17 +155,16 @@ impl<P: Parse<T>, T> Parse<T> for Vec1<P> {
 /// ```
 impl<P: Parse<T>, T, const N: usize> Parse<T> for [P; N] {
     fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
-        // safety: we only return the new data if no errors occured,
-        // and if no errors occured, then we definitely filled all N spaces
-        // therefore the array was initialised.
-        unsafe {
-            let mut output = MaybeUninit::uninit_array();
-            for (i, output) in output.iter_mut().enumerate() {
-                *output.as_mut_ptr() =
-                    P::parse(input).wrap_err_with(|| format!("could not parse element {}", i))?;
-            }
+        let mut output = Vec::with_capacity(N);
+        for i in 0..N {
+            output.push(
+                P::parse(input).wrap_err_with(|| format!("could not parse element {}", i))?,
+            );
+        }
 
-            Ok(MaybeUninit::array_assume_init(output))
+        match output.try_into() {
+            Ok(output) => Ok(output),
+            Err(_) => unreachable!("exactly N elements were parsed"),
         }
     }
 
diff --git a/nommy/src/lib.rs b/nommy/src/lib.rs
index a83100a..aee2981 100644
--- a/nommy/src/lib.rs
+++ b/nommy/src/lib.rs
@@ -1,7 +1,5 @@
 #![allow(incomplete_features)]
 #![feature(array_map)]
-#![feature(maybe_uninit_uninit_array)]
-#![feature(maybe_uninit_array_assume_init)]
 #![feature(const_generics)]
 #![deny(missing_docs)]
 #![warn(clippy::pedantic)]
-- 
2.43.0


From dc5c4410b020a1e3674e30dbe61844ad0dd56cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 02/11] fix: text tags read as many characters as they have,
 not bytes

A tag with a character outside ASCII took too many characters from the
input and so only matched at its very end.
---
 nommy/src/text/tag.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nommy/src/text/tag.rs b/nommy/src/text/tag.rs
index bffbc2d..99d1bc0 100644
--- a/nommy/src/text/tag.rs
+++ b/nommy/src/text/tag.rs
@@ -15,7 +15,7 @@ pub struct Tag<const TAG: &'static str>;
 
 impl<const TAG: &'static str> Parse<char> for Tag<TAG> {
     fn parse(input: &mut impl Buffer<char>) -> eyre::Result<Self> {
-        let s = String::from_iter(input.take(TAG.len()));
+        let s = String::from_iter(input.take(TAG.chars().count()));
         if TAG == s {
             Ok(Self)
         } else {
@@ -24,7 +24,7 @@ impl<const TAG: &'static str> Parse<char> for Tag<TAG> {
     }
 
     fn peek(input: &mut impl Buffer<char>) -> bool {
-        TAG.chars().eq(input.take(TAG.len()))
+        TAG.chars().eq(input.take(TAG.chars().count()))
     }
 }
 
-- 
2.43.0


From af3e69aba70c2e707dbe4323b568bc9e449a4999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 03/11] fix: WhileNot1::peek stops at the end of the input

It looped forever when the run it matched was ended by the end of the
input, and did not insist on at least one character there.
---
 nommy/src/text/many.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nommy/src/text/many.rs b/nommy/src/text/many.rs
index ee9df2d..e3915c7 100644
--- a/nommy/src/text/many.rs
+++ b/nommy/src/text/many.rs
@@ -87,18 +87,17 @@ impl<const CHARS: &'static str> Parse<char> for WhileNot1<CHARS> {
     }
 
     fn peek(input: &mut impl Buffer<char>) -> bool {
-        if OneOf::<CHARS>::peek(input) {
-            return false;
-        }
+        let mut found = false;
         loop {
             let mut cursor = input.cursor();
-            if OneOf::<CHARS>::peek(&mut cursor) {
-                break;
+            match cursor.next() {
+                Some(c) if !CHARS.contains(c) => found = true,
+                _ => break,
             }
             let pos = cursor.position();
             input.fast_forward(pos);
         }
-        true
+        found
     }
 }
 
-- 
2.43.0


From ce9e868635d256829133aad38e73862a2537f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 04/11] fix: WhileNot1::parse takes only characters it has
 checked

The check looked at one read of the source and the character pushed came
from another: on a source that had nothing for the first and something for
the second, an excluded character was accepted.
---
 nommy/src/text/many.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nommy/src/text/many.rs b/nommy/src/text/many.rs
index e3915c7..b341ad2 100644
--- a/nommy/src/text/many.rs
+++ b/nommy/src/text/many.rs
@@ -72,11 +72,14 @@ impl<const CHARS: &'static str> Parse<char> for WhileNot1<CHARS> {
     fn parse(input: &mut impl Buffer<char>) -> eyre::Result<Self> {
         let mut output = String::new();
 
-        while !OneOf::<CHARS>::peek(&mut input.cursor()) {
-            match input.next() {
-                None => break,
-                Some(c) => output.push(c),
+        loop {
+            let mut cursor = input.cursor();
+            match cursor.next() {
+                Some(c) if !CHARS.contains(c) => output.push(c),
+                _ => break,
             }
+            let pos = cursor.position();
+            input.fast_forward(pos);
         }
 
         if output.is_empty() {
-- 
2.43.0


From abbae8e1a5676e05670eb916dd4344a6db9662e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 05/11] fix: a cursor only moves past elements it has read

Reading at the end of the input still advanced the cursor, so that its
position counted elements that do not exist: on a source that resumes, the
cursor skipped elements and committing its position lost them, and the
detection of repetitions that read nothing did not work at the end of the
input.
---
 nommy/src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nommy/src/buffer.rs b/nommy/src/buffer.rs
index 915278a..b96f1f1 100644
--- a/nommy/src/buffer.rs
+++ b/nommy/src/buffer.rs
@@ -197,9 +197,9 @@ impl<'a, T, B: Buffer<T>> Iterator for Cursor<'a, T, B> {
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
-        let output = self.buf.peek_ahead(self.base + self.index);
+        let output = self.buf.peek_ahead(self.base + self.index)?;
         self.index += 1;
-        output
+        Some(output)
     }
 }
 
-- 
2.43.0


From b9c1704d5722f1ac56b79327ca917f5d9cee7741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 06/11] fix: a panic while cloning a peeked element does not
 lose it

The element was cloned before it was stored in the buffer.
---
 nommy/src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nommy/src/buffer.rs b/nommy/src/buffer.rs
index b96f1f1..cceb440 100644
--- a/nommy/src/buffer.rs
+++ b/nommy/src/buffer.rs
@@ -117,8 +117,8 @@ where
                 self.buffer.push_back(cache);
             }
             let output = self.iter.next()?;
-            self.buffer.push_back(output.clone());
-            Some(output)
+            self.buffer.push_back(output);
+            self.buffer.back().cloned()
         }
     }
 }
-- 
2.43.0


From 0fc9d13412d359c37520cb055363f24f24f208e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 07/11] fix: skipping a cursor far ahead does not overflow its
 position

cursor.fast_forward(usize::MAX) after a read panicked in debug builds and
moved the cursor backwards in release builds.
---
 nommy/src/buffer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nommy/src/buffer.rs b/nommy/src/buffer.rs
index cceb440..5c89c7b 100644
--- a/nommy/src/buffer.rs
+++ b/nommy/src/buffer.rs
@@ -175,18 +175,19 @@ impl<'a, T, B: Buffer<T>> Cursor<'a, T, B> {
 
 impl<'a, T, B: Buffer<T>> Buffer<T> for Cursor<'a, T, B> {
     fn fast_forward(&mut self, n: usize) {
-        self.index += n;
+        self.index = self.index.saturating_add(n);
     }
 
     fn peek_ahead(&mut self, i: usize) -> Option<T> {
-        self.buf.peek_ahead(self.base + self.index + i)
+        let start = self.base.saturating_add(self.index);
+        self.buf.peek_ahead(start.saturating_add(i))
     }
 
     type CursorBase = B;
     fn cursor(&mut self) -> Cursor<T, Self::CursorBase> {
         Cursor {
             buf: self.buf,
-            base: self.base + self.index,
+            base: self.base.saturating_add(self.index),
             index: 0,
             _t: PhantomData,
         }
@@ -197,7 +198,7 @@ impl<'a, T, B: Buffer<T>> Iterator for Cursor<'a, T, B> {
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
-        let output = self.buf.peek_ahead(self.base + self.index)?;
+        let output = self.buf.peek_ahead(self.base.saturating_add(self.index))?;
         self.index += 1;
         Some(output)
     }
-- 
2.43.0


From fca4dd06ea436288017ca8d660589f3fb942d22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:15 +0000
Subject: [PATCH 08/11] fix: derive: require Parse of the separator of a list
 field

Without it, a separated list did not compile in a type without parse_type.
---
 nommy-derive/src/fn_impl.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index b5dd3e8..8f98362 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -99,6 +99,9 @@ impl<'a> Builder<'a> {
             let parser: Option<&syn::Type> = (&attrs.vec.parser).into();
             let parser = parser.unwrap();
             self.add_where(&parser);
+            if let Some(sep) = &attrs.vec.seperated_by {
+                self.add_where(sep);
+            }
             self.parse_impl
                 .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
             self.peek_impl.extend(self.peeker_peek_vec_tokens(&parser));
-- 
2.43.0


From 93e8284394187a1b0a20f754f391cdafd69f7b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 09/11] fix: derive: peek at list fields the way they are
 parsed

The generated peek repeated the element without looking for separators, so
it stopped after the first element of a separated list, and it skipped
ignored parts differently from parse.
---
 nommy-derive/src/attr.rs    |  2 +-
 nommy-derive/src/fn_impl.rs | 31 +++++++++++++++++--------------
 nommy/src/vec.rs            | 21 ++++++++++++++++++++-
 3 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/nommy-derive/src/attr.rs b/nommy-derive/src/attr.rs
index 4883709..cba8f15 100644
--- a/nommy-derive/src/attr.rs
+++ b/nommy-derive/src/attr.rs
@@ -118,7 +118,7 @@ pub struct FieldAttr {
     pub parser: Option<syn::Type>,
     pub vec: VecFieldAttr,
 }
-#[derive(Default)]
+#[derive(Clone, Default)]
 pub struct VecFieldAttr {
     pub count: Option<syn::Expr>,
     pub min: Option<syn::Expr>,
diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index 8f98362..f6a03ce 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -104,7 +104,8 @@ impl<'a> Builder<'a> {
             }
             self.parse_impl
                 .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
-            self.peek_impl.extend(self.peeker_peek_vec_tokens(&parser));
+            self.peek_impl
+                .extend(self.peeker_peek_vec_tokens(&parser, &attrs.vec));
         } else {
             let parser: Option<&syn::Type> = (&attrs.parser).into();
             let parser = parser.unwrap_or(&ty);
@@ -287,21 +288,23 @@ impl<'a> Builder<'a> {
         }
     }
 
-    pub fn peeker_peek_vec_tokens(&self, ty: &syn::Type) -> TokenStream {
-        let generic = &self.generic;
-        let after_each = &self.after_each;
+    /// Recognises what `parser_parse_vec_tokens` parses, without producing the values
+    fn peeker_peek_vec_tokens(&self, ty: &syn::Type, attrs: &VecFieldAttr) -> TokenStream {
+        let list = format_ident!("list");
+        let peeked = syn::parse_quote! { ::nommy::vec::Peeked<#ty> };
+        let attrs = VecFieldAttr {
+            parser: Some(peeked),
+            ..attrs.clone()
+        };
+        let peeked = &attrs.parser;
+        let parse_list = self.parser_parse_vec_tokens(&list, &attrs);
 
         quote! {
-            loop {
-                let mut cursor = input.cursor();
-                if !<#ty as ::nommy::Parse<#generic>>::peek(&mut cursor) {
-                    break;
-                }
-                let pos = cursor.position();
-                input.fast_forward(pos);
-
-                #after_each
-            }
+            let mut peek_list = || -> ::nommy::eyre::Result<::std::vec::Vec<#peeked>> {
+                #parse_list
+                Ok(list)
+            };
+            if peek_list().is_err() { return false }
         }
     }
 
diff --git a/nommy/src/vec.rs b/nommy/src/vec.rs
index 85fb7c2..8ec8fa3 100644
--- a/nommy/src/vec.rs
+++ b/nommy/src/vec.rs
@@ -1,9 +1,28 @@
 //! Complex vec parsing functions
 
-use std::{convert::TryInto, error::Error};
+use std::{convert::TryInto, error::Error, marker::PhantomData};
 
 use crate::{Buffer, Parse};
 
+/// `Peeked` stands in for `P` where a value only has to be recognised:
+/// it parses whatever [`P::peek`](Parse::peek) accepts, without producing a `P`.
+/// The derived `peek` uses it to peek at lists
+pub struct Peeked<P>(PhantomData<P>);
+
+impl<P: Parse<T>, T> Parse<T> for Peeked<P> {
+    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
+        if Self::peek(input) {
+            Ok(Self(PhantomData))
+        } else {
+            Err(eyre::eyre!("value not found"))
+        }
+    }
+
+    fn peek(input: &mut impl Buffer<T>) -> bool {
+        P::peek(input)
+    }
+}
+
 /// Parses buffer into a vector, with each value being seperated by `SeperatedBy` and ignoreing any `Ignore`
 pub fn parse_vec<P, Q, Ignore, T, B>(max: usize, input: &mut B) -> eyre::Result<Vec<Q>>
 where
-- 
2.43.0


From 82a1691ce504c6e7f5b4d4e72b0323c5ba5533f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 10/11] fix: derive: skip ignored parts after list fields too

They were skipped after every other prefix, field and suffix, but after a
list field parse went straight on to what follows: "[a b ]" failed at "]"
with ignored white space.
---
 nommy-derive/src/fn_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index f6a03ce..17a1f85 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -116,8 +116,8 @@ impl<'a> Builder<'a> {
                 &format!("failed to parse field `{}`", name),
             ));
             self.peek_impl.extend(self.peeker_peek_tokens(&parser));
-            self.ignore();
         }
+        self.ignore();
 
         self.add_fix(&attrs.suffix, "suffix", format!("field `{}`", name));
     }
-- 
2.43.0


From 5b403c496a26bb625655e08e0332da795cc003e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 11/11] hook: tell a simulator of buffer operations (cfg
 nommy_sim)

---
 nommy/src/buffer.rs | 12 ++++++++++++
 nommy/src/lib.rs    |  2 ++
 nommy/src/sim.rs    | 17 +++++++++++++++++
 3 files changed, 31 insertions(+)
 create mode 100644 nommy/src/sim.rs

diff --git a/nommy/src/buffer.rs b/nommy/src/buffer.rs
index 5c89c7b..837f787 100644
--- a/nommy/src/buffer.rs
+++ b/nommy/src/buffer.rs
@@ -67,6 +67,8 @@ impl<I: Iterator> Iterator for Buf<I> {
     type Item = I::Item;
 
     fn next(&mut self) -> Option<Self::Item> {
+        #[cfg(nommy_sim)]
+        crate::sim::step(true);
         self.buffer
             .pop_front()
             .map_or_else(|| self.iter.next(), Some)
@@ -89,10 +91,14 @@ where
 {
     type CursorBase = Self;
     fn cursor(&mut self) -> Cursor<I::Item, Self::CursorBase> {
+        #[cfg(nommy_sim)]
+        crate::sim::step(false);
         Cursor::new(self)
     }
 
     fn fast_forward(&mut self, n: usize) {
+        #[cfg(nommy_sim)]
+        crate::sim::step(true);
         let len = self.buffer.len();
         if len <= n {
             self.buffer.clear();
@@ -108,6 +114,8 @@ where
     }
 
     fn peek_ahead(&mut self, i: usize) -> Option<I::Item> {
+        #[cfg(nommy_sim)]
+        crate::sim::step(true);
         if i < self.buffer.len() {
             Some(self.buffer[i].clone())
         } else {
@@ -175,6 +183,8 @@ impl<'a, T, B: Buffer<T>> Cursor<'a, T, B> {
 
 impl<'a, T, B: Buffer<T>> Buffer<T> for Cursor<'a, T, B> {
     fn fast_forward(&mut self, n: usize) {
+        #[cfg(nommy_sim)]
+        crate::sim::step(false);
         self.index = self.index.saturating_add(n);
     }
 
@@ -185,6 +195,8 @@ impl<'a, T, B: Buffer<T>> Buffer<T> for Cursor<'a, T, B> {
 
     type CursorBase = B;
     fn cursor(&mut self) -> Cursor<T, Self::CursorBase> {
+        #[cfg(nommy_sim)]
+        crate::sim::step(false);
         Cursor {
             buf: self.buf,
             base: self.base.saturating_add(self.index),
diff --git a/nommy/src/lib.rs b/nommy/src/lib.rs
index aee2981..9864dba 100644
--- a/nommy/src/lib.rs
+++ b/nommy/src/lib.rs
@@ -61,6 +61,8 @@ mod buffer;
 pub use buffer::*;
 pub mod bytes;
 mod impls;
+#[cfg(nommy_sim)]
+pub mod sim;
 pub mod text;
 pub mod vec;
 
diff --git a/nommy/src/sim.rs b/nommy/src/sim.rs
new file mode 100644
index 0000000..609fecf
--- /dev/null
+++ b/nommy/src/sim.rs
@@ -0,0 +1,17 @@
+//! Simulation hook, compiled with `--cfg nommy_sim` only:
+//! a simulator learns of every operation on a buffer or cursor, before it takes place
+use std::cell::Cell;
+
+thread_local!(static STEP: Cell<Option<fn(bool)>> = Cell::new(None));
+
+/// What to do at every operation on this thread;
+/// it is told whether the operation may read from the source
+pub fn on_step(f: Option<fn(bool)>) {
+    STEP.with(|s| s.set(f));
+}
+
+pub(crate) fn step(may_read: bool) {
+    if let Ok(Some(f)) = STEP.try_with(Cell::get) {
+        f(may_read);
+    }
+}
-- 
2.43.0

