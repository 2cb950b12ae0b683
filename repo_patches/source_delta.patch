From d0e09d539f11a77d62f08390cbb0a7fee419f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:10 +0000
Subject: [PATCH 01/15] fix: finalize SHA-256 of messages that leave one byte
 in the last block

Finalizing a message with a length of 63 modulo 64 panicked. The padding
marker filled the last block, but the full block was never processed.
---
 lib/osi/src/hash/sha256.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/osi/src/hash/sha256.rs b/lib/osi/src/hash/sha256.rs
index a5efe53..ec6679f 100644
--- a/lib/osi/src/hash/sha256.rs
+++ b/lib/osi/src/hash/sha256.rs
@@ -230,10 +230,10 @@ impl crate::hash::Engine for Engine {
 
         // Stream buffer is immediately committed when full, so there
         // must always be remaining space. Push a final 1-bit and pad with
-        // 0-bits until the next byte boundary.
+        // 0-bits until the next byte boundary. If this completes the chunk, it
+        // must be committed as well, so go through the normal push operation.
         assert_ne!(self.remaining, 0);
-        self.chunk[self.chunk.len() - self.remaining] = 0x80u8;
-        self.remaining -= 1;
+        self.push(&[0x80u8]);
 
         // Now pad with 0-bytes until the chunk is full, except for 8 final
         // bytes. Those take the total size in bits. If it does not fit into
-- 
2.43.0


From f5ac89a9325e0cc4b627d1c38dc0d511023800c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:10 +0000
Subject: [PATCH 02/15] fix: write iterators to the front of over-long maps

An implementation may return a bigger map than requested. The bytes of the
iterator were then written to the end of the map, rather than its start.
---
 lib/tmp/src/io/map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index cfc076d..5c75454 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -114,10 +114,9 @@ pub trait Write {
             assert!(map.len() > 0);
             n = core::cmp::min(n, map.len());
 
-            while n > 0 {
-                map[map.len().strict_sub(n)].write(data.next().unwrap());
+            for v in &mut map[..n] {
+                v.write(data.next().unwrap());
                 *idx += 1;
-                n -= 1;
             }
         }
     }
-- 
2.43.0


From 15cc5e034c4d7a817cf0b5b0fdd05e8fea01b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:10 +0000
Subject: [PATCH 03/15] fix: map uncommitted space of vectors in mapped I/O

Committing to a vector appends to its content, but the map started at the
beginning of the vector. With a non-empty vector, previously committed data
was overwritten and uninitialized data was exposed. Also refuse ranges that
no vector can hold, rather than panicking.
---
 lib/tmp/src/io/map.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index 5c75454..6cd2420 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -180,15 +180,11 @@ impl Write for alloc::vec::Vec<u8> {
         let Some(end) = idx.checked_add(len) else {
             return Flow::Break(Some(Error::Overflow));
         };
-        if end > self.len() {
-            self.reserve(end - self.len());
+        if end > isize::MAX as usize - self.len() {
+            return Flow::Break(Some(Error::Overflow));
         }
+        self.reserve(end);
 
-        let ptr: *mut u8 = self.as_mut_ptr();
-        let ptr_u: *mut Uninit<u8> = ptr as _;
-        let cap: usize = self.capacity();
-        let slice = unsafe { core::slice::from_raw_parts_mut(ptr_u, cap) };
-
-        Flow::Continue(&mut slice[idx..end])
+        Flow::Continue(&mut self.spare_capacity_mut()[idx..end])
     }
 }
-- 
2.43.0


From 62f6a6eebfe0d4d4f6d87294ca79f701440fec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:10 +0000
Subject: [PATCH 04/15] fix: always map the requested minimum of vectors in
 streamed I/O

The maximum is a hint. A hint below the minimum returned less space than
requested, and a hint of the maximum integer panicked.
---
 lib/tmp/src/io/stream.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/io/stream.rs b/lib/tmp/src/io/stream.rs
index 102672b..be7f90a 100644
--- a/lib/tmp/src/io/stream.rs
+++ b/lib/tmp/src/io/stream.rs
@@ -258,7 +258,9 @@ impl Write for alloc::vec::Vec<u8> {
     }
 
     fn map(&mut self, min: usize, max: Option<usize>) -> Flow<More, &mut [Uninit<u8>]> {
-        self.reserve(max.unwrap_or(min));
+        // The maximum is merely a hint, so never rely on it.
+        let _ = max;
+        self.reserve(min);
         Flow::Continue(self.spare_capacity_mut())
     }
 }
-- 
2.43.0


From 9845ccfa86fb2ef480c65e64d50555fbb9c34fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:10 +0000
Subject: [PATCH 05/15] fix: calculate the length of long signatures correctly

The length of signatures with more than 31 elements was reported six times
too big. Encoding variants of such types panicked or was refused.
---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 6dd814b..04bcd94 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -824,7 +824,7 @@ impl Sig {
     pub const fn len(&self) -> usize {
         match self.flags().node() {
             Node8::ID => self.nodes.len() / Node8::SIZE_COEFF,
-            Node64::ID => self.nodes.len() / Node8::SIZE_COEFF,
+            Node64::ID => self.nodes.len() / Node64::SIZE_COEFF,
             _ => core::unreachable!(),
         }
     }
-- 
2.43.0


From d249f9d5846c461f4b78f63c1e78e18dd11ade6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:11 +0000
Subject: [PATCH 06/15] fix: track the end of decoded arrays relative to their
 start

The decoder compared its absolute position against the length of the array.
Hence, it stopped iterating arrays early, unless they start at the very
beginning of the data.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index b6d635f..2dcb7ef 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -687,8 +687,12 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let mut len_u = [0; _];
         Self::align(self.read, &mut level.idx, dbus::Element::U32.dvar_alignment_exp())?;
         Self::read(self.read, &mut level.idx, &mut len_u)?;
-        level.meta = self.format.de_u32(len_u) as usize;
         Self::align(self.read, &mut level.idx, align)?;
+        let len = self.format.de_u32(len_u) as usize;
+        let Some(end) = level.idx.checked_add(len) else {
+            return Flow::Break(Some(dbus::Error::Io(io::map::Error::Overflow)));
+        };
+        level.meta = end;
 
         core::mem::swap(&mut level, &mut self.level);
         self.stack.push((dbus::Element::Array, level, None));
-- 
2.43.0


From 034cb45426c13603333f3ec6f014f65e46782dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:11 +0000
Subject: [PATCH 07/15] fix: do not allocate based on the announced length of
 strings

The decoder allocated up to 4GiB for any string, before checking whether that
much data is available. It is documented to use linear space.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index 2dcb7ef..2f89571 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -543,12 +543,26 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         read.read(idx, data).map_break(|v| v.map(|v| v.into()))
     }
 
-    fn read_uninit(
+    fn read_vec(
         read: &mut dyn io::map::Read,
         idx: &mut usize,
-        data: &mut [core::mem::MaybeUninit<u8>],
-    ) -> Flow<Option<dbus::Error>> {
-        read.read_uninit(idx, data).map_break(|v| v.map(|v| v.into()))
+        len: usize,
+    ) -> Flow<Option<dbus::Error>, alloc::vec::Vec<u8>> {
+        // The length is not trusted, so only ever allocate space for data that
+        // is available.
+        let mut data = alloc::vec::Vec::new();
+        while data.len() < len {
+            let rem = len.strict_sub(data.len());
+            let map = match read.map(*idx, rem) {
+                Flow::Continue(v) => v,
+                Flow::Break(v) => return Flow::Break(v.map(|v| v.into())),
+            };
+            assert!(map.len() > 0);
+            let n = core::cmp::min(map.len(), rem);
+            data.extend_from_slice(&map[..n]);
+            *idx += n;
+        }
+        Flow::Continue(data)
     }
 
     fn align(
@@ -601,11 +615,7 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let len = self.format.de_u8(len_u) as usize;
 
         // Read the string.
-        let mut buffer = alloc::vec::Vec::with_capacity(len);
-        let buf_p = &mut buffer.spare_capacity_mut()[..len];
-        Self::read_uninit(self.read, &mut idx, buf_p)?;
-        // SAFETY: `Self::read_uninit()` always initializes the full slice.
-        unsafe { buffer.set_len(len) };
+        let buffer = Self::read_vec(self.read, &mut idx, len)?;
 
         // Validate UTF-8.
         *data = match alloc::string::String::from_utf8(buffer) {
@@ -640,11 +650,7 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let len = self.format.de_u32(len_u) as usize;
 
         // Read the string.
-        let mut buffer = alloc::vec::Vec::with_capacity(len);
-        let buf_p = &mut buffer.spare_capacity_mut()[..len];
-        Self::read_uninit(self.read, &mut idx, buf_p)?;
-        // SAFETY: `Self::read_uninit()` always initializes the full slice.
-        unsafe { buffer.set_len(len) };
+        let buffer = Self::read_vec(self.read, &mut idx, len)?;
 
         // Validate UTF-8.
         *data = match alloc::string::String::from_utf8(buffer) {
-- 
2.43.0


From e661c116ae6e2fe8474105fc9d3eaf1b36a9c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:44 +0000
Subject: [PATCH 08/15] fix: report an unescaped 0x1f in JSON strings

All control characters must be escaped, but the last one was accepted.
---
 lib/tmp/src/fmt/json/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index 223f074..831c0dd 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -553,7 +553,7 @@ impl<'read> Dec<'read> {
                 let map = self.read.map_while(
                     &mut self.inner.idx,
                     None,
-                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..0x1f),
+                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..=0x1f),
                 )?;
 
                 match map[self.inner.idx] {
@@ -569,7 +569,7 @@ impl<'read> Dec<'read> {
                         self.inner.state = State::StringEscape;
                         None
                     },
-                    v @ 0x00..0x1f => {
+                    v @ 0x00..=0x1f => {
                         self.inner.idx = self.inner.idx.strict_add(1);
                         self.inner.string_raw(&map[idx_start..self.inner.idx]);
                         Some(self.inner.raise_error(Error::StringUnescaped {
-- 
2.43.0


From 36f6e57affa30d508ee45f34e3c9fdcbdbd7043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:45 +0000
Subject: [PATCH 09/15] fix: do not duplicate JSON string content after
 unescaped characters

If a string contained an escape sequence followed by an unescaped control
character, everything in between was added to the string value twice.
---
 lib/tmp/src/fmt/json/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index 831c0dd..b0126b5 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -572,6 +572,7 @@ impl<'read> Dec<'read> {
                     v @ 0x00..=0x1f => {
                         self.inner.idx = self.inner.idx.strict_add(1);
                         self.inner.string_raw(&map[idx_start..self.inner.idx]);
+                        self.inner.state = State::String { idx_start: self.inner.idx };
                         Some(self.inner.raise_error(Error::StringUnescaped {
                             code: v,
                         }))
-- 
2.43.0


From 3a97dbc4e7382e9241ba990a468a95ef4bc8b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:45 +0000
Subject: [PATCH 10/15] fix: flush pending JSON tokens exactly once at the end
 of the stream

Completing the tokenizer never marked the pending token as done. Hence,
calling it until it yields nothing never finished. Numbers were missing their
last digits, numbers with empty parts panicked, and data that was not parsed,
yet, was included in the token.
---
 lib/tmp/src/fmt/json/token.rs | 41 +++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index b0126b5..b3e8de5 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -774,16 +774,49 @@ impl<'read> Dec<'read> {
                 return Some(self.inner.raise_error(Error::BufferChanged));
             };
 
+            // Only finalize what was parsed. Anything else remains buffered.
+            let map = &map[..self.inner.idx];
+
             match self.inner.state {
                 State::None => None,
-                State::Whitespace => Some(self.inner.raise_whitespace(map)),
-                State::Item => Some(self.inner.raise_item(map)),
-                State::Number { .. }
-                | State::NumberDone { .. } => Some(self.inner.number_done(map)),
+                State::Whitespace => {
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_whitespace(map))
+                },
+                State::Item => {
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_item(map))
+                },
+                State::Number {
+                    ref mut integer, ref mut fraction, ref mut exponent, ..
+                } => {
+                    // Include everything that was scanned before running out
+                    // of data.
+                    if exponent.start != 0 {
+                        exponent.end = self.inner.idx;
+                    } else if fraction.start != 0 {
+                        fraction.end = self.inner.idx;
+                    } else {
+                        integer.end = self.inner.idx;
+                    }
+                    Some(self.inner.number_done(map))
+                },
+                State::NumberDone {
+                    sign, ref integer, ref fraction, exponent_sign, ref exponent,
+                } => {
+                    let (integer, fraction, exponent) = (
+                        integer.clone(), fraction.clone(), exponent.clone(),
+                    );
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_number(
+                        map, sign, integer, fraction, exponent_sign, exponent,
+                    ))
+                },
                 State::String { .. }
                 | State::StringEscape
                 | State::StringEscapeUnicode { .. }
                 | State::StringEscapeUnicodeTrail { .. } => {
+                    self.inner.done = Some(self.inner.idx);
                     Some(self.inner.raise_error(Error::StringIncomplete))
                 },
             }
-- 
2.43.0


From 601d45eaa479294f062c8b554583c321e5e776e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:45 +0000
Subject: [PATCH 11/15] fix: track values, keys, and empty objects in JSON
 streams

The stream decoder never advanced past primitive values, reported keys as
values, and refused empty objects. Hence, nearly every valid document was
reported as invalid.
---
 lib/tmp/src/fmt/json/stream.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index be7357c..80ff20a 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -96,10 +96,23 @@ impl DecInner {
         &mut self,
         _token: Token<'token>,
     ) -> Item<'token> {
-        // XXX:
+        self.state = match self.state {
+            State::Root => State::RootDone,
+            State::ArrayOpen | State::ArrayComma => State::ArrayValue,
+            State::ObjectColon => State::ObjectValue,
+            v => v,
+        };
         Item::Prim
     }
 
+    fn key<'token>(
+        &mut self,
+        _token: Token<'token>,
+    ) -> Item<'token> {
+        self.state = State::ObjectKey;
+        Item::Key
+    }
+
     fn array_open(&mut self, from: Option<Stack>) -> Item<'static> {
         if let Some(v) = from {
             self.stack.push(v);
@@ -202,12 +215,12 @@ impl DecInner {
             (State::ObjectOpen, Token::ArrayOpen) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ArrayClose) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ObjectOpen) => Some(self.unexpected()),
-            (State::ObjectOpen, Token::ObjectClose) => Some(self.unexpected()),
+            (State::ObjectOpen, Token::ObjectClose) => Some(self.object_close()),
             (State::ObjectOpen, Token::Null) => Some(self.unexpected()),
             (State::ObjectOpen, Token::False) => Some(self.unexpected()),
             (State::ObjectOpen, Token::True) => Some(self.unexpected()),
             (State::ObjectOpen, Token::Number { .. }) => Some(self.unexpected()),
-            (State::ObjectOpen, Token::String { .. }) => { self.state = State::ObjectKey; Some(self.value(token)) },
+            (State::ObjectOpen, Token::String { .. }) => Some(self.key(token)),
 
             (State::ObjectKey, Token::Error(e)) => Some(self.propagate(e)),
             (State::ObjectKey, Token::Whitespace { .. }) => None,
@@ -263,7 +276,7 @@ impl DecInner {
             (State::ObjectComma, Token::False) => Some(self.unexpected()),
             (State::ObjectComma, Token::True) => Some(self.unexpected()),
             (State::ObjectComma, Token::Number { .. }) => Some(self.unexpected()),
-            (State::ObjectComma, Token::String { .. }) => { self.state = State::ObjectKey; Some(self.value(token)) },
+            (State::ObjectComma, Token::String { .. }) => Some(self.key(token)),
 
             (State::RootDone, Token::Error(e)) => Some(self.propagate(e)),
             (State::RootDone, Token::Whitespace { .. }) => None,
-- 
2.43.0


From 6b67cd848d0522287ce1bff0deb4275716797de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:45 +0000
Subject: [PATCH 12/15] fix: only accept flags of commands that were entered

If there is no command for the entered path, the parser used the flags of the
next command below it, even though that command was not selected.
---
 lib/osi/src/args/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index 3970c39..a427344 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -243,7 +243,7 @@ impl<'this, 'schema, 'args, R> Cursor<'this, 'schema, 'args, R> {
         &self,
         name: &str,
     ) -> Option<(usize, usize)> {
-        let mut o_idx = self.cursor.as_ref().map(|v| v.index);
+        let mut o_idx = self.command_or_up();
 
         while let Some(idx) = o_idx {
             if let Ok(v) = self.schema.command_at(idx)
-- 
2.43.0


From c1201b2ee855cfab759cdac5f60f540f84634708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:45 +0000
Subject: [PATCH 13/15] fix: report short flags without their leading dash

The error is documented to carry the flags without the dash, but got the
entire argument.
---
 lib/osi/src/args/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index a427344..9986e76 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -478,7 +478,14 @@ impl<'this, 'schema, 'args, R> Parser<'this, 'schema, 'args, R> {
                 // single dash without following flags has no special meaning
                 // and we do not handle it here.
                 if arg_bytes.len() >= 2 && arg_bytes[0] == b'-' {
-                    self.parse_short(cursor, arg_os)?;
+                    let shorts = unsafe {
+                        // SAFETY: We split off a well-defined UTF-8 sequence,
+                        //         which is allowed for `std::ffi::OsStr`.
+                        compat::OsStr::from_encoded_bytes_unchecked(
+                            &arg_bytes[1..],
+                        )
+                    };
+                    self.parse_short(cursor, shorts)?;
 
                     // Argument was parsed as flag.
                     continue;
-- 
2.43.0


From 1c180684547a33a0919e3a6d2d2f89ea525c4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:28 +0000
Subject: [PATCH 14/15] fix: draw every seed word of Xoshiro256++ separately

The array repeat expression evaluated the generator once and copied the
result, so all four state words were equal. This affected the state used in
place of an all-zero seed as well as seeding from SplitMix64.
---
 lib/osi/src/rng.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/osi/src/rng.rs b/lib/osi/src/rng.rs
index 228bd2d..29da626 100644
--- a/lib/osi/src/rng.rs
+++ b/lib/osi/src/rng.rs
@@ -61,7 +61,7 @@ pub struct Xoshiro256pp {
 // non-0 seeding requirements of some RNGs).
 const MIX64_0: [u64; 4] = {
     let mut mix = Mix64::with_seed(0);
-    let v = [mix.next64(); 4];
+    let v = [mix.next64(), mix.next64(), mix.next64(), mix.next64()];
 
     let mut i = 0;
     while i < v.len() {
@@ -291,7 +291,7 @@ impl Xoshiro256pp {
     /// Use the [`SplitMix64`] instance to seed the 256-bit of state of a new
     /// RNG instance.
     pub const fn from_splitmix64(mix: &mut SplitMix64) -> Self {
-        Self::with_seed([mix.next64(); 4])
+        Self::with_seed([mix.next64(), mix.next64(), mix.next64(), mix.next64()])
     }
 
     /// Produce the next 64-bit random number.
-- 
2.43.0


From da6c105343daf98208d98d63702d83e55cfa1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:03:20 +0000
Subject: [PATCH 15/15] fix: keep a moved signature position within the
 signature

---
 lib/tmp/src/fmt/dbus/signature.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 04bcd94..79b13a9 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -1105,7 +1105,8 @@ where
     }
 
     pub fn move_to(&mut self, idx: usize) -> &mut Self {
-        self.idx = idx;
+        let len = self.sig.len();
+        self.idx = if idx < len { idx } else { len };
         self
     }
 
-- 
2.43.0

