From 278cfb34b460bdc9e9bb59668bce68bba7992cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 01/47] fix: reject VBR fields that overflow 64 bits instead of
 overflowing the shift

---
 llvm-bitcursor/src/error.rs |  4 ++++
 llvm-bitcursor/src/lib.rs   | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/error.rs b/llvm-bitcursor/src/error.rs
index 905a66c..1cb0bac 100644
--- a/llvm-bitcursor/src/error.rs
+++ b/llvm-bitcursor/src/error.rs
@@ -25,6 +25,10 @@ pub enum Error {
     #[cfg(any(feature = "vbr", doc))]
     #[error("invalid VBR width (must be > 1 but <= system word width)")]
     InvalidVbrWidth,
+    /// A VBR read encountered a value that doesn't fit into 64 bits.
+    #[cfg(any(feature = "vbr", doc))]
+    #[error("VBR value too large")]
+    VbrOverflow,
     /// An I/O operation completed partially, but the inner buffer ended before it full completion.
     #[error("too little data to service request")]
     Short,
diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 70a6d59..a53d937 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -298,7 +298,14 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
             // Read a block, add it to the result (with the potential continuation bit masked off)
             let block = self.read(width)?;
             log::debug!("block: {:#b}, masked: {:#b}", block, block & !block_mask);
-            result |= (block & !block_mask) << shift;
+
+            // A VBR's payload might not fit in the result, either because the stream
+            // is malformed or because it encodes a value larger than we support.
+            let payload = block & !block_mask;
+            if (payload << shift) >> shift != payload {
+                return Err(Error::VbrOverflow);
+            }
+            result |= payload << shift;
 
             // If we don't have a continuation bit, then we're done with the VBR.
             let continuation = (block & block_mask) != 0;
@@ -308,6 +315,11 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
 
             // Calculate the shift needed for the next block.
             shift += width - 1;
+
+            // Like LLVM, we refuse VBRs that continue past the width of their result.
+            if shift >= Self::BLOCK_SIZE_BITS {
+                return Err(Error::VbrOverflow);
+            }
         }
 
         Ok(result)
-- 
2.43.0


From 0b390764f5e7deb1aab13358fa4834ba8727512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 02/47] fix: decode the signed VBR negative zero as the minimum
 integer

---
 llvm-bitcursor/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index a53d937..afee0e8 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -337,7 +337,10 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
         let sgn = (result & 1) != 0;
         result >>= 1;
 
-        if sgn {
+        if sgn && result == 0 {
+            // Like LLVM, we treat "negative zero" as the smallest representable value.
+            Ok(isize::MIN)
+        } else if sgn {
             Ok(-(result as isize))
         } else {
             Ok(result as isize)
-- 
2.43.0


From 2ac9cf01897e7495c57216eb818790d8baa0f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 03/47] fix: align to the next 32-bit boundary from any cursor
 position

---
 llvm-bitcursor/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index afee0e8..bf4b5f8 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -353,10 +353,17 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
     pub fn align32(&mut self) {
         log::debug!("aligning the cursor");
 
-        if self.bit_index >= 32 {
-            self.current_block >>= self.bit_index - 32;
-            self.bit_index = 32;
+        // NOTE(ww): Blocks can be short (at the end of the stream) or begin at any byte
+        // (after a seek), so the next boundary has to be computed from our actual position.
+        let aligned = (self.tell_bit() + 31) / 32 * 32;
+        let skip = aligned - self.tell_bit();
+
+        if skip <= self.bit_index {
+            self.current_block >>= skip;
+            self.bit_index -= skip;
         } else {
+            // The boundary is past our current block, and possibly past the end of the stream.
+            self.byte_pos = std::cmp::min(aligned / 8, self.byte_len());
             self.clear_block_state();
         }
     }
-- 
2.43.0


From 54e65e8861e626fe2b59dd7717f875ece61fb0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 04/47] fix: don't overflow on extreme current-relative seeks

---
 llvm-bitcursor/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index bf4b5f8..98a5419 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -395,7 +395,7 @@ impl<T: AsRef<[u8]>> io::Seek for BitCursor<T> {
                 // Seeking backwards from the end is perfectly fine.
                 ((self.byte_len() as i64) + pos) as u64
             }
-            io::SeekFrom::Current(pos) => ((self.tell_byte() as i64) + pos) as u64,
+            io::SeekFrom::Current(pos) => (self.tell_byte() as i64).saturating_add(pos) as u64,
         } as usize;
 
         // Sanity check: we can't seek before or beyond the backing buffer.
-- 
2.43.0


From 7630598a06c655a49b2c6f538e9a63a8ca77588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 05/47] fix: end wrapped bitstreams at offset + size instead of
 size + 20

---
 llvm-bitstream/src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/llvm-bitstream/src/lib.rs b/llvm-bitstream/src/lib.rs
index 8b68c61..f18872d 100644
--- a/llvm-bitstream/src/lib.rs
+++ b/llvm-bitstream/src/lib.rs
@@ -120,10 +120,17 @@ impl<T: AsRef<[u8]>> Bitstream<T> {
         // NOTE(ww): The `new_with_len` API is a little bit silly -- ideally we'd just
         // take a slice of `inner` and create a new `BitCursor` with it, but we can't do
         // that while preserving the generic `T` bound.
-        // The manual fixup (+ 20) is another artifact of this -- we keep the wrapper header
-        // in the new cursor to make the offsets more intelligible, which means that we
-        // also need to extend the end of our cursor's buffer.
-        let actual_length = (wrapper.size as usize) + 20;
+        // The manual fixup (+ offset) is another artifact of this -- we keep everything up to
+        // the bitstream in the new cursor to make the offsets more intelligible, which means
+        // that we also need to extend the end of our cursor's buffer.
+        // It's also why the bitstream has to be 32-bit aligned: the cursor aligns itself
+        // relative to the beginning of its buffer.
+        if wrapper.offset % 4 != 0 {
+            return Err(Error::BadContainer(
+                "wrapped bitstream is not 4-byte aligned".into(),
+            ));
+        }
+        let actual_length = (wrapper.offset as usize) + (wrapper.size as usize);
         let mut cur = BitCursor::new_with_len(inner, actual_length)?;
 
         cur.seek(SeekFrom::Start(wrapper.offset.into()))
-- 
2.43.0


From 3598baa3bbc4f31459560e62c889be9216682134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 06/47] fix: don't underflow on an array as the only operand of
 an abbreviation

---
 llvm-bitstream/src/abbrev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index e7293f7..946cb40 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -174,7 +174,7 @@ impl Abbrev {
                 AbbrevOpEnc::Array => {
                     // There is only ever one array operand in an abbreviation definition,
                     // and it is always the second-to-last operand. Anything else is an error.
-                    if idx != num_abbrev_opnds - 2 {
+                    if num_abbrev_opnds - idx != 2 {
                         return Err(Error::AbbrevParse("array operand at invalid index".into()));
                     }
 
-- 
2.43.0


From ab1dfa49ecfa868ba222f61676732d34d722ca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 07/47] fix: reject literals as array elements in abbreviations

---
 llvm-bitstream/src/abbrev.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 946cb40..7b7a176 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -183,7 +183,12 @@ impl Abbrev {
                     // `done_early` to indicate that we're done with operand parsing.
                     // This works since array operands are guaranteed to be second-to-last,
                     // followed only by their element operand encoding.
-                    cur.read(1)?;
+                    // The element has to be an encoded operand: a literal has no encoding.
+                    if cur.read(1)? == 1 {
+                        return Err(Error::AbbrevParse(
+                            "invalid element type for an array: literal".into(),
+                        ));
+                    }
                     let elem_enc: AbbrevOpEnc = cur.read(3)?.try_into()?;
                     done_early = true;
 
-- 
2.43.0


From f9909415ec92be62061ba1fa4999a345815926f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 08/47] fix: don't allocate based on untrusted lengths

---
 llvm-bitstream/src/abbrev.rs | 9 ++++-----
 llvm-bitstream/src/parser.rs | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 7b7a176..6aebeee 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -75,10 +75,10 @@ impl AbbrevOp {
             AbbrevOp::Array(elem) => {
                 // An array operand is encoded as a length (VBR6), followed by
                 // each encoded element of the array.
-                // TODO(ww): Sanity check array_len here.
+                // NOTE(ww): array_len is untrusted, so we can't preallocate with it.
                 let array_len = cur.read_vbr(6)? as usize;
 
-                let mut fields: Fields = Vec::with_capacity(array_len);
+                let mut fields: Fields = vec![];
                 for _ in 0..array_len {
                     fields.extend(elem.parse(cur)?);
                 }
@@ -90,15 +90,14 @@ impl AbbrevOp {
                 // A blob operand is encoded as a length (VBR6), followed by a 32-bit aligned
                 // sequence of bytes, followed by another alignment back to 32 bits.
 
-                // TODO(ww): Sanity check blob_len here: it probably shouldn't be 0,
-                // and it definitely can't be longer than the stream.
+                // NOTE(ww): Like array_len above, blob_len is untrusted.
                 let blob_len = cur.read_vbr(6)? as usize;
                 cur.align32();
 
                 // TODO(ww): This read loop is probably slower than it needs to be;
                 // `BitCursor` could probably learn a `read_bytes` API that's
                 // only allowed when the stream is byte-aligned.
-                let mut fields: Fields = Vec::with_capacity(blob_len);
+                let mut fields: Fields = vec![];
                 for _ in 0..blob_len {
                     fields.push(cur.read_exact::<u8>()?.into());
                 }
diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index a92a88a..a2ce65f 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -322,7 +322,7 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         log::debug!("unabbrev record code={}, num_opnds={}", code, num_opnds);
 
-        let mut fields: Fields = Vec::with_capacity(num_opnds as usize);
+        let mut fields: Fields = vec![];
         for _ in 0..num_opnds {
             fields.push(self.cursor.read_vbr(6)?);
         }
-- 
2.43.0


From 94cf2b9f0be390af1a009c1096103ac2eff29536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 09/47] fix: reject abbreviated records without a record code

---
 llvm-bitstream/src/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index a2ce65f..3f84055 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -361,8 +361,13 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         let mut fields = abbrev.parse(&mut self.cursor)?;
         log::debug!("parsed fields: {:?}", fields);
 
-        // Panic safety: every abbrev contains at least one operand, so this cannot panic.
-        // We also expect the first operand to always be a u64, indicating the record code.
+        // We expect the first field to always be a u64, indicating the record code. Every abbrev
+        // contains at least one operand, but an array or blob operand might not have any fields.
+        if fields.is_empty() {
+            return Err(Error::StreamParse(
+                "abbreviated record without a record code".into(),
+            ));
+        }
         let code: u64 = fields.remove(0);
 
         if self.scope().is_blockinfo() {
-- 
2.43.0


From 96c444f54ee8547cab1f2bc609d5377f45889401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 10/47] fix: reject SETBID records without a block ID

---
 llvm-bitstream/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 3f84055..927331f 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -332,7 +332,10 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             let code: BlockInfoCode = record.code.try_into()?;
             match code {
                 BlockInfoCode::SetBid => {
-                    let block_id: u64 = record.fields[0];
+                    let block_id: u64 = *record
+                        .fields
+                        .first()
+                        .ok_or_else(|| Error::StreamParse("SETBID without a block ID".into()))?;
                     log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
                     self.scope_mut().set_blockinfo_block_id(block_id)?;
                 }
-- 
2.43.0


From fe6ed69b4b74e1cff92fcfab6cabc90e8409cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 11/47] fix: reject blocks with unreadable abbreviation ID
 widths

---
 llvm-bitstream/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 927331f..e597de2 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -212,7 +212,8 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         self.cursor.align32();
 
-        if new_width < 1 {
+        // NOTE(ww): Widths that can't be read would leave us stuck inside the block.
+        if new_width < 1 || new_width >= u64::BITS.into() {
             return Err(Error::BadScope(format!(
                 "can't enter block: invalid code side: {}",
                 new_width
-- 
2.43.0


From 61d0c31e98345af454a329adfc38f830bd37a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 12/47] fix: decode zero-width abbreviation operands as zero

---
 llvm-bitstream/src/abbrev.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 6aebeee..42718ba 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -70,11 +70,20 @@ impl AbbrevOp {
         // sequences of "fields," which are really just individual `u64`s.
         Ok(match self {
             AbbrevOp::Literal(val) => vec![*val],
+            // Like LLVM, we treat zero-width operands as literal zeros.
+            AbbrevOp::Vbr(0) | AbbrevOp::Fixed(0) => vec![0],
             AbbrevOp::Vbr(width) => vec![cur.read_vbr(*width as usize)?],
             AbbrevOp::Fixed(width) => vec![cur.read_as::<u64>(*width as usize)?],
             AbbrevOp::Array(elem) => {
                 // An array operand is encoded as a length (VBR6), followed by
-                // each encoded element of the array.
+                // each encoded element of the array, which therefore can't be empty.
+                if matches!(
+                    **elem,
+                    AbbrevOp::Literal(_) | AbbrevOp::Vbr(0) | AbbrevOp::Fixed(0)
+                ) {
+                    return Err(Error::AbbrevParse("array elements must have a width".into()));
+                }
+
                 // NOTE(ww): array_len is untrusted, so we can't preallocate with it.
                 let array_len = cur.read_vbr(6)? as usize;
 
-- 
2.43.0


From a82af6e6ffc89b6ca5d2b36ae431f908a1ff79ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 13/47] fix: don't recurse over unbounded runs of parse details

---
 llvm-bitstream/src/parser.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index e597de2..accbc97 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -391,6 +391,18 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
     /// [`Error::Exhausted`](Error::Exhausted) if the bitstream has
     /// been fully consumed.
     pub fn advance(&mut self) -> Result<StreamEntry, Error> {
+        // NOTE(ww): This is a loop instead of a recursive call because the number of consecutive
+        // parse details in a stream is unbounded, unlike our stack.
+        loop {
+            if let Some(entry) = self.advance_one()? {
+                return Ok(entry);
+            }
+        }
+    }
+
+    /// Interpret the next abbreviation ID and its contents, returning `None` if they're
+    /// a parse detail rather than a [`StreamEntry`](StreamEntry).
+    fn advance_one(&mut self) -> Result<Option<StreamEntry>, Error> {
         if self.cursor.exhausted() {
             return Err(Error::Exhausted);
         }
@@ -410,32 +422,21 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             .into();
         log::debug!("next entry ID: {:?}", id);
 
-        // NOTE(ww): The strange `map` + `unwrap_or_else` pattern below is to keep the parser
+        // NOTE(ww): `None` below is to keep the parser
         // generalized without having to return `StreamEntries` that correspond to
         // parse details that a stream consumer shouldn't have to be aware of
         // (such as abbrev definitions and the BLOCKINFO block).
         match id {
-            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => {
-                self.exit_block()?.map(Ok).unwrap_or_else(|| self.advance())
-            }
-            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self
-                .enter_block()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
+            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => self.exit_block(),
+            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self.enter_block(),
             AbbrevId::Reserved(ReservedAbbrevId::DefineAbbrev) => {
                 // DEFINE_ABBREV is always a parse detail, so we don't even bother
                 // trying to return a StreamEntry for it.
                 self.define_abbrev()?;
-                self.advance()
+                Ok(None)
             }
-            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self
-                .parse_unabbrev()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
-            AbbrevId::Defined(abbrev_id) => self
-                .parse_with_abbrev(abbrev_id)?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
+            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self.parse_unabbrev(),
+            AbbrevId::Defined(abbrev_id) => self.parse_with_abbrev(abbrev_id),
         }
     }
 }
-- 
2.43.0


From 692cd194222a39028a944ce9d89f2dcbd0c1fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 14/47] fix: interpret abbreviated BLOCKINFO records

---
 llvm-bitstream/src/abbrev.rs |  4 ++-
 llvm-bitstream/src/parser.rs | 47 ++++++++++++++++++++----------------
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 42718ba..ddfb193 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -81,7 +81,9 @@ impl AbbrevOp {
                     **elem,
                     AbbrevOp::Literal(_) | AbbrevOp::Vbr(0) | AbbrevOp::Fixed(0)
                 ) {
-                    return Err(Error::AbbrevParse("array elements must have a width".into()));
+                    return Err(Error::AbbrevParse(
+                        "array elements must have a width".into(),
+                    ));
                 }
 
                 // NOTE(ww): array_len is untrusted, so we can't preallocate with it.
diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index accbc97..667468f 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -305,6 +305,28 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         Ok(())
     }
 
+    /// Interpret a record in a `BLOCKINFO` block.
+    fn interpret_blockinfo(&mut self, record: &Record) -> Result<(), Error> {
+        let code: BlockInfoCode = record.code.try_into()?;
+        match code {
+            BlockInfoCode::SetBid => {
+                let block_id: u64 = *record
+                    .fields
+                    .first()
+                    .ok_or_else(|| Error::StreamParse("SETBID without a block ID".into()))?;
+                log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
+                self.scope_mut().set_blockinfo_block_id(block_id)?;
+            }
+            BlockInfoCode::BlockName => log::debug!("skipping BLOCKNAME code in BLOCKINFO"),
+            BlockInfoCode::SetRecordName => {
+                log::debug!("skipping SETRECORDNAME code in BLOCKINFO")
+            }
+            o => log::debug!("skipping unsupported record {:?} in BLOCKINFO", o),
+        }
+
+        Ok(())
+    }
+
     /// Interpret an `UNABBREV_RECORD` record.
     fn parse_unabbrev(&mut self) -> Result<Option<StreamEntry>, Error> {
         // Sanity check: `UNABBREV_RECORD` can only occur inside a block,
@@ -330,22 +352,7 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         let record = Record::from_unabbrev(code, fields);
         if self.scope().is_blockinfo() {
-            let code: BlockInfoCode = record.code.try_into()?;
-            match code {
-                BlockInfoCode::SetBid => {
-                    let block_id: u64 = *record
-                        .fields
-                        .first()
-                        .ok_or_else(|| Error::StreamParse("SETBID without a block ID".into()))?;
-                    log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
-                    self.scope_mut().set_blockinfo_block_id(block_id)?;
-                }
-                BlockInfoCode::BlockName => log::debug!("skipping BLOCKNAME code in BLOCKINFO"),
-                BlockInfoCode::SetRecordName => {
-                    log::debug!("skipping SETRECORDNAME code in BLOCKINFO")
-                }
-                o => log::debug!("skipping unsupported record {:?} in BLOCKINFO", o),
-            };
+            self.interpret_blockinfo(&record)?;
             return Ok(None);
         }
 
@@ -374,15 +381,13 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         }
         let code: u64 = fields.remove(0);
 
+        let record = Record::from_abbrev(abbrev_id, code, fields);
         if self.scope().is_blockinfo() {
+            self.interpret_blockinfo(&record)?;
             return Ok(None);
         }
 
-        Ok(Some(StreamEntry::Record(Record {
-            abbrev_id: Some(abbrev_id),
-            code: code,
-            fields: fields,
-        })))
+        Ok(Some(StreamEntry::Record(record)))
     }
 
     /// Return the next [`StreamEntry`](StreamEntry) in this bitstream.
-- 
2.43.0


From 42d5bf372fc0003f382b809bd987bf3b3a2186ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 15/47] fix: consume trailing bits that can't contain an
 abbreviation ID

---
 llvm-bitstream/src/parser.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 667468f..052dd46 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -421,10 +421,18 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         // To return the next stream entry, we read the next abbreviation ID using
         // our current width. The abbreviation ID we read determines our subsequent
         // parse strategy and the kind of entry we return.
-        let id: abbrev::AbbrevId = self
+        let id: abbrev::AbbrevId = match self
             .cursor
-            .read(self.scope().abbrev_id_width() as usize)?
-            .into();
+            .read(self.scope().abbrev_id_width() as usize)
+        {
+            Ok(id) => id.into(),
+            Err(e) => {
+                // NOTE(ww): There aren't enough bits left for another abbreviation ID.
+                // Consume them, since we'd otherwise fail here forever.
+                self.cursor.seek_bit(self.cursor.bit_len())?;
+                return Err(e.into());
+            }
+        };
         log::debug!("next entry ID: {:?}", id);
 
         // NOTE(ww): `None` below is to keep the parser
-- 
2.43.0


From 730d59e17510a3f74b47bfb4bace78b860f5f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 16/47] fix: do not overflow when expressing the largest
 alignments in bits

---
 llvm-support/src/align.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 163c2ba..9987571 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -114,8 +114,10 @@ impl Align {
     }
 
     /// Return this alignment as a bit-granular alignment.
+    ///
+    /// NOTE: The largest alignments exceed 64 bits when expressed in bits. These saturate.
     pub fn bit_align(&self) -> u64 {
-        self.byte_align() * 8
+        self.byte_align().saturating_mul(8)
     }
 }
 
-- 
2.43.0


From 1b4c3b46095ec16e8ec5256525faa59ebd3f59bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 17/47] fix: rewrite the whole spec of an address space when it
 is updated

---
 llvm-support/src/align.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 9987571..08882b9 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -724,14 +724,11 @@ impl PointerAlignSpecs {
             // If we have a match, then we need to either insert or update
             // depending on whether our match is the same spec as us.
             // Panic safety: `pos` is a valid index returned above.
-            Some(pos) => match self.0[pos] == spec {
+            // NOTE: `PointerAlignSpec`s are identified by their address space alone, while `==`
+            // compares all of their fields.
+            Some(pos) => match self.0[pos].address_space == spec.address_space {
                 true => {
-                    // Unwrap safety: `pos` is a valid index returned above.
-                    #[allow(clippy::unwrap_used)]
-                    let other = self.0.get_mut(pos).unwrap();
-
-                    other.abi_alignment = spec.abi_alignment;
-                    other.preferred_alignment = spec.preferred_alignment;
+                    self.0[pos] = spec;
                 }
                 false => {
                     self.0.insert(pos + 1, spec);
-- 
2.43.0


From dfee585f7bc69e1873a18696e0e1545389a80001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 18/47] fix: refuse parsed pointer specs whose preferred
 alignment is below the ABI one

---
 llvm-support/src/align.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 08882b9..6b11edc 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -646,13 +646,7 @@ impl FromStr for PointerAlignSpec {
             .map(|idx| idx.parse::<u64>())
             .unwrap_or(Ok(pointer_size))?;
 
-        Ok(Self {
-            address_space: address_space,
-            abi_alignment: abi,
-            preferred_alignment: pref,
-            pointer_size: pointer_size,
-            index_size: index_size,
-        })
+        PointerAlignSpec::new(address_space, abi, pref, pointer_size, index_size)
     }
 }
 
-- 
2.43.0


From 226562fcacc7894c7e5b87fc3550ba07f2b7fb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 19/47] fix: refuse non-ASCII type alignment specs instead of
 panicking

---
 llvm-support/src/align.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 6b11edc..66debd1 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -340,6 +340,13 @@ impl FromStr for TypeAlignSpec {
             ));
         }
 
+        // NOTE: This also keeps the indexing below on character boundaries.
+        if !value.is_ascii() {
+            return Err(AlignSpecError::Parse(
+                "non-ASCII characters in type alignment".into(),
+            ));
+        }
+
         // Unwrap safety: we check for a nonempty string above.
         #[allow(clippy::unwrap_used)]
         let id = value.chars().next().unwrap();
-- 
2.43.0


From 1a659dafc86ebe25f01772b77edb953972a93d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 20/47] fix: refuse pointer alignment specs that don't begin
 with 'p'

---
 llvm-support/src/align.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 66debd1..b5f38dc 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -620,6 +620,13 @@ impl FromStr for PointerAlignSpec {
             ));
         }
 
+        // NOTE: This also keeps the indexing below on a character boundary.
+        if !value.starts_with('p') {
+            return Err(AlignSpecError::Parse(
+                "pointer align spec doesn't begin with 'p'".into(),
+            ));
+        }
+
         let parts: Vec<&str> = value[1..].split(':').collect();
 
         // We expect no less than 3 parts: `p[n]`, `size`, and `abi`, with
-- 
2.43.0


From 9c787ff230be2e825dffe9e3a32ab91bdc0646f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 21/47] fix: accept aggregate alignment specs with an ABI
 alignment of zero

---
 llvm-support/src/align.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index b5f38dc..49be454 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -374,10 +374,14 @@ impl FromStr for TypeAlignSpec {
                         parts.len()
                     )));
                 }
+                // NOTE: Like LLVM, we treat an ABI alignment of zero as a single byte here.
                 let abi = parts[0]
                     .parse::<u64>()
                     .map_err(|e| AlignSpecError::Parse(e.to_string()))
-                    .and_then(|a| Align::from_bit_align(a).map_err(Into::into))?;
+                    .and_then(|a| match a {
+                        0 => Ok(Align::ALIGN8),
+                        a => Align::from_bit_align(a).map_err(Into::into),
+                    })?;
 
                 let pref = parts
                     .get(1)
-- 
2.43.0


From 4f87de78ffd03cf6363c6562573ee2ca47e05a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 22/47] fix: an empty datalayout string is the default
 datalayout

---
 llvm-mapper/src/record/datalayout.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index ec771eb..2b35fe1 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -105,6 +105,10 @@ impl FromStr for DataLayout {
         }
 
         let mut datalayout = Self::default();
+        if value.is_empty() {
+            return Ok(datalayout);
+        }
+
         for spec in value.split('-') {
             if spec.is_empty() {
                 return Err(DataLayoutError::EmptySpec);
-- 
2.43.0


From c5080cc7435182e1dec6ebb8ce49fa2cedf31932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 23/47] fix: refuse trailing characters in endianness and
 mangling specs

---
 llvm-mapper/src/record/datalayout.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index 2b35fe1..0c4ee04 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -119,6 +119,11 @@ impl FromStr for DataLayout {
             // Unwrap safety: we check for a nonempty spec above.
             #[allow(clippy::unwrap_used)]
             match spec.chars().next().unwrap() {
+                'e' | 'E' if !body.is_empty() => {
+                    return Err(DataLayoutError::BadSpecParse(
+                        "unexpected characters after endianness".into(),
+                    ))
+                }
                 'e' => datalayout.endianness = Endian::Little,
                 'E' => datalayout.endianness = Endian::Big,
                 'S' => {
@@ -172,6 +177,11 @@ impl FromStr for DataLayout {
                 'm' => {
                     // The mangling spec is `m:X`, where `X` is the mangling kind.
                     // We've already parsed `m`, so we expect exactly two characters.
+                    if body.len() > 2 {
+                        return Err(DataLayoutError::BadSpecParse(
+                            "unexpected characters after mangling kind".into(),
+                        ));
+                    }
                     let mut mangling = body.chars().take(2);
                     match mangling.next() {
                         Some(':') => {}
-- 
2.43.0


From e1a31df7ab7629d270c3e71181f963fb3f739e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 24/47] fix: check the separator of non-integral address space
 specs

---
 llvm-mapper/src/record/datalayout.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index 0c4ee04..9fd5aae 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -246,7 +246,13 @@ impl FromStr for DataLayout {
                                             }
                                         })
                                 })
-                                .collect::<Result<_, _>>()?
+                                .collect::<Result<_, _>>()?;
+
+                            if body[1..].chars().next() != Some(':') {
+                                return Err(DataLayoutError::BadSpecParse(
+                                    "bad separator for non-integral address spaces".into(),
+                                ));
+                            }
                         }
                         Some(_) => {
                             datalayout.native_integer_widths = body
-- 
2.43.0


From 94cd7a28a860b485d67a29f5a39c0badc23cbeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 25/47] fix: opaque pointers are valid vector elements

---
 llvm-support/src/ty.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/ty.rs b/llvm-support/src/ty.rs
index f015dff..a5c2bec 100644
--- a/llvm-support/src/ty.rs
+++ b/llvm-support/src/ty.rs
@@ -166,7 +166,11 @@ impl Type {
     /// assert!(!Type::Metadata.is_vector_element());
     /// ```
     pub fn is_vector_element(&self) -> bool {
-        self.is_floating() || matches!(self, Type::Integer(_) | Type::Pointer(_))
+        self.is_floating()
+            || matches!(
+                self,
+                Type::Integer(_) | Type::Pointer(_) | Type::OpaquePointer(_)
+            )
     }
 
     /// Returns whether this type is "first class", i.e. is a valid type for an LLVM value.
-- 
2.43.0


From 367c2afe31c16135220aea1af352ac50f79ef1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 26/47] fix: refuse vector types without elements

---
 llvm-support/src/ty.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/ty.rs b/llvm-support/src/ty.rs
index a5c2bec..ef89186 100644
--- a/llvm-support/src/ty.rs
+++ b/llvm-support/src/ty.rs
@@ -462,6 +462,9 @@ pub enum VectorTypeError {
     /// The requested element type is invalid.
     #[error("invalid vector element type: {0:?}")]
     BadElement(Type),
+    /// The requested number of elements is invalid.
+    #[error("vector types must have at least one element")]
+    BadSize,
 }
 
 /// Represents an vector type.
@@ -478,7 +481,9 @@ pub struct VectorType {
 impl VectorType {
     /// Create a new `VectorType`.
     pub fn new(num_elements: u64, element_type: Type) -> Result<Self, VectorTypeError> {
-        if element_type.is_vector_element() {
+        if num_elements == 0 {
+            Err(VectorTypeError::BadSize)
+        } else if element_type.is_vector_element() {
             Ok(Self {
                 num_elements,
                 element_type: Box::new(element_type),
-- 
2.43.0


From ac600e9117026faaf0de5eca8767dcd7c850e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 27/47] fix: accept integer and floating-point types for binary
 opcodes

---
 llvm-support/src/opcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-support/src/opcode.rs b/llvm-support/src/opcode.rs
index 694f31d..85fbc95 100644
--- a/llvm-support/src/opcode.rs
+++ b/llvm-support/src/opcode.rs
@@ -155,7 +155,7 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
         let is_fp = ty.is_floating_or_floating_vector();
 
         // Binary operations are only valid on integer/fp types or vectors thereof.
-        if !is_fp || !ty.is_integer_or_integer_vector() {
+        if !is_fp && !ty.is_integer_or_integer_vector() {
             return Err(BinaryOpError::InvalidType(ty.clone()));
         }
 
-- 
2.43.0


From cbb00a2a482a4a4142ced51d087327deca0aae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 28/47] fix: shifts and bitwise opcodes are integer-only

---
 llvm-support/src/opcode.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/llvm-support/src/opcode.rs b/llvm-support/src/opcode.rs
index 85fbc95..1d09f9d 100644
--- a/llvm-support/src/opcode.rs
+++ b/llvm-support/src/opcode.rs
@@ -177,13 +177,13 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
             (BinaryOpcode::SRem, false) => BinaryOp::SRem,
             (BinaryOpcode::SRem, true) => BinaryOp::FRem,
             // The rest are all integer-type only.
-            (BinaryOpcode::Shl, true) => BinaryOp::Shl,
-            (BinaryOpcode::LShr, true) => BinaryOp::LShr,
-            (BinaryOpcode::AShr, true) => BinaryOp::AShr,
-            (BinaryOpcode::And, true) => BinaryOp::And,
-            (BinaryOpcode::Or, true) => BinaryOp::Or,
-            (BinaryOpcode::Xor, true) => BinaryOp::Xor,
-            (_, false) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
+            (BinaryOpcode::Shl, false) => BinaryOp::Shl,
+            (BinaryOpcode::LShr, false) => BinaryOp::LShr,
+            (BinaryOpcode::AShr, false) => BinaryOp::AShr,
+            (BinaryOpcode::And, false) => BinaryOp::And,
+            (BinaryOpcode::Or, false) => BinaryOp::Or,
+            (BinaryOpcode::Xor, false) => BinaryOp::Xor,
+            (_, true) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
         })
     }
 }
-- 
2.43.0


From e6e68d43ecce8612d34b767b32bf9af42aa4a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 29/47] fix: taking a string or blob from an empty record is an
 error

---
 llvm-mapper/src/unroll.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 614ccd0..9671753 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -34,7 +34,7 @@ impl Record {
     pub fn try_string(&self, idx: usize) -> Result<String, RecordStringError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx >= self.0.fields.len().saturating_sub(1) {
             return Err(RecordStringError::BadIndex(idx, self.0.fields.len()));
         }
 
@@ -54,7 +54,7 @@ impl Record {
     pub fn try_blob(&self, idx: usize) -> Result<Vec<u8>, RecordBlobError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx >= self.0.fields.len().saturating_sub(1) {
             return Err(RecordBlobError::BadIndex(idx, self.0.fields.len()));
         }
 
-- 
2.43.0


From b04b6b45d40f77fa108622e80ee681b0f036c538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 30/47] fix: string table references near the integer limits no
 longer overflow

---
 llvm-mapper/src/block/strtab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/strtab.rs b/llvm-mapper/src/block/strtab.rs
index 8b1548f..6b2bf79 100644
--- a/llvm-mapper/src/block/strtab.rs
+++ b/llvm-mapper/src/block/strtab.rs
@@ -79,7 +79,7 @@ impl Strtab {
     pub fn try_get(&self, sref: &StrtabRef) -> Result<&str, StrtabError> {
         let inner = self.as_ref();
 
-        if sref.size == 0 || sref.offset >= inner.len() || sref.offset + sref.size > inner.len() {
+        if sref.size == 0 || sref.offset >= inner.len() || sref.size > inner.len() - sref.offset {
             return Err(StrtabError::BadRange);
         }
 
-- 
2.43.0


From cea4d6a996bd9160153a5825b57584131d9a9688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 31/47] fix: vscale_range keeps its bounds in order, and an
 unbounded maximum

---
 llvm-mapper/src/block/attributes.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index ad39a9c..fd60452 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -260,7 +260,7 @@ pub enum IntAttribute {
     DereferenceableOrNull(u64),
     /// `allocsize(<EltSizeParam>[, <NumEltsParam>])`
     AllocSize(u32, Option<u32>),
-    /// `vscale_range(<Min>[, <Max>])`
+    /// `vscale_range(<Min>[, <Max>])`, where a maximum of 0 means unbounded
     VScaleRange(u32, u32),
     /// `uwTable ([variant])`
     UwTable(UwTableVariant),
@@ -336,12 +336,9 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
             }
             AttributeId::VScaleRange => {
                 let min = (value >> 32) as u32;
-                let max = match value as u32 {
-                    0 => min,
-                    max => max,
-                };
+                let max = value as u32;
 
-                IntAttribute::VScaleRange(max, min)
+                IntAttribute::VScaleRange(min, max)
             }
             AttributeId::UwTable => {
                 IntAttribute::UwTable(UwTableVariant::try_from(value).map_err(|_| {
-- 
2.43.0


From 5d450a310bf846b1833be936068f498a0194502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 32/47] fix: alignment attributes are encoded in bytes

---
 llvm-mapper/src/block/attributes.rs | 49 ++++++++++++-----------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index fd60452..7dec158 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -4,7 +4,7 @@ use std::convert::{TryFrom, TryInto};
 
 use hashbrown::HashMap;
 use llvm_support::bitcodes::AttributeCode;
-use llvm_support::{AttributeId, AttributeKind, MaybeAlign};
+use llvm_support::{Align, AlignError, AttributeId, AttributeKind, MaybeAlign};
 use num_enum::{TryFromPrimitive, TryFromPrimitiveError};
 use thiserror::Error;
 
@@ -270,6 +270,17 @@ pub enum IntAttribute {
     MemoryKind(u64),
 }
 
+/// Alignment attributes carry their alignment in bytes (zero meaning unspecified),
+/// rather than as the shift that other records use.
+fn maybe_align(value: u64) -> Result<MaybeAlign, AlignError> {
+    let shift = match value {
+        0 => 0,
+        _ => Align::from_byte_align(value)?.shift() + 1,
+    };
+
+    MaybeAlign::try_from(shift)
+}
+
 impl TryFrom<(AttributeId, u64)> for IntAttribute {
     type Error = AttributeError;
 
@@ -285,34 +296,14 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
         }
 
         Ok(match key {
-            AttributeId::Alignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::Alignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
-            }
-            AttributeId::StackAlignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::StackAlignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
-            }
+            AttributeId::Alignment => IntAttribute::Alignment(
+                maybe_align(value)
+                    .map_err(|_| AttributeError::AttributeMalformed("invalid alignment", key))?,
+            ),
+            AttributeId::StackAlignment => IntAttribute::StackAlignment(
+                maybe_align(value)
+                    .map_err(|_| AttributeError::AttributeMalformed("invalid alignment", key))?,
+            ),
             AttributeId::Dereferenceable => IntAttribute::Dereferenceable(value),
             AttributeId::DereferenceableOrNull => IntAttribute::DereferenceableOrNull(value),
             AttributeId::AllocSize => {
-- 
2.43.0


From 4661e8fb589cf18f6517e7d6f7d61ab3ee2b7d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 33/47] fix: nosanitize_bounds is an enum attribute

---
 llvm-mapper/src/block/attributes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 7dec158..65fe4b7 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -222,6 +222,8 @@ pub enum EnumAttribute {
     FnretthunkExtern = AttributeId::FnretthunkExtern as u64,
     /// `skipprofile`
     SkipProfile = AttributeId::SkipProfile as u64,
+    /// `nosanitize_bounds`
+    NoSanitizeBounds = AttributeId::NoSanitizeBounds as u64,
 }
 
 impl TryFrom<AttributeId> for EnumAttribute {
-- 
2.43.0


From 4ad01a01e241724e27e23113324d1531b91b1271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 34/47] fix: old attribute entry records are an error instead
 of a panic

---
 llvm-mapper/src/block/attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 65fe4b7..2e794cf 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -465,7 +465,9 @@ impl TryFrom<(&'_ Block, &'_ PartialMapCtx)> for Attributes {
 
             match code {
                 AttributeCode::EntryOld => {
-                    unimplemented!();
+                    return Err(
+                        MapError::Unsupported("old attribute entry records".into()).into()
+                    );
                 }
                 AttributeCode::Entry => {
                     let mut groups = vec![];
-- 
2.43.0


From 2cac953c4800ce0a1b7ec96460903ae335edfdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 35/47] fix: attribute group IDs and parameter indices are not
 truncated

---
 llvm-mapper/src/block/attributes.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 2e794cf..8457efc 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -472,7 +472,9 @@ impl TryFrom<(&'_ Block, &'_ PartialMapCtx)> for Attributes {
                 AttributeCode::Entry => {
                     let mut groups = vec![];
                     for group_id in record.fields() {
-                        let group_id = *group_id as u32;
+                        let group_id = u32::try_from(*group_id).map_err(|_| {
+                            MapError::Invalid(format!("attribute group ID too large: {}", group_id))
+                        })?;
                         log::debug!("group id: {}", group_id);
                         groups.push(
                             ctx.attribute_groups()
@@ -555,8 +557,11 @@ impl TryFrom<&'_ Block> for AttributeGroups {
             }
 
             // Panic safety: We check for at least three fields above.
-            let group_id = record.fields()[0] as u32;
-            let disposition: AttributeGroupDisposition = (record.fields()[1] as u32).into();
+            let group_id = u32::try_from(record.fields()[0])
+                .map_err(|e| MapError::Invalid(format!("bad attribute group ID: {}", e)))?;
+            let disposition: AttributeGroupDisposition = u32::try_from(record.fields()[1])
+                .map_err(|e| MapError::Invalid(format!("bad attribute parameter index: {}", e)))?
+                .into();
 
             // Each attribute in the group can potentially span multiple fields
             // in the record. Keep track of our field index to ensure that we
-- 
2.43.0


From 7b84037d8c7e7d6f65d045b221463c40c68e9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 36/47] fix: attribute strings without a terminator are an
 error instead of a panic

---
 llvm-mapper/src/block/attributes.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 8457efc..cc9e23a 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -383,7 +383,12 @@ impl Attribute {
         macro_rules! take_string {
             // NOTE(ww): Weird double-brace to make sure the macro expands as a full expression.
             () => {{
-                let str_bytes = record.fields()[start + fieldcount..]
+                let rest = record
+                    .fields()
+                    .get(start + fieldcount..)
+                    .ok_or(AttributeError::TooShort)?;
+
+                let str_bytes = rest
                     .iter()
                     .take_while(|f| **f != 0)
                     .map(|f| u8::try_from(*f))
@@ -392,6 +397,9 @@ impl Attribute {
 
                 if str_bytes.is_empty() {
                     Err(AttributeError::BadString)
+                } else if str_bytes.len() == rest.len() {
+                    // The string's NULL byte is missing.
+                    Err(AttributeError::TooShort)
                 } else {
                     let result =
                         String::from_utf8(str_bytes).map_err(|_| AttributeError::BadString)?;
@@ -465,9 +473,7 @@ impl TryFrom<(&'_ Block, &'_ PartialMapCtx)> for Attributes {
 
             match code {
                 AttributeCode::EntryOld => {
-                    return Err(
-                        MapError::Unsupported("old attribute entry records".into()).into()
-                    );
+                    return Err(MapError::Unsupported("old attribute entry records".into()).into());
                 }
                 AttributeCode::Entry => {
                     let mut groups = vec![];
-- 
2.43.0


From 85be8e31a9e0342a49b59ce4eab3fe9a1d5694d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 37/47] fix: type tables don't reserve memory for their
 announced size

---
 llvm-mapper/src/block/type_table.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 3ffdaa9..6108f84 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -228,7 +228,8 @@ impl PartialTypeTable {
     fn new(numentries: usize) -> Self {
         Self {
             numentries: numentries,
-            inner: Vec::with_capacity(numentries),
+            // NOTE: The size is not trustworthy, so nothing is reserved for it.
+            inner: Vec::new(),
         }
     }
 
@@ -291,7 +292,7 @@ impl TryFrom<&'_ Block> for TypeTable {
     type Error = TypeTableError;
 
     fn try_from(block: &Block) -> Result<Self, Self::Error> {
-        // Figure out how many type entries we have, and reserve the space for them up-front.
+        // Figure out how many type entries we have, and check that number once they're all mapped.
         let numentries = *block
             .records
             .one(TypeCode::NumEntry)
-- 
2.43.0


From 2a79c2d89b9670533ce766cfcb080f85b8005967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 38/47] fix: integer type widths are not truncated to 32 bits

---
 llvm-mapper/src/block/type_table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 6108f84..c40bd3a 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -368,7 +368,9 @@ impl TryFrom<&'_ Block> for TypeTable {
                     last_type_name.clear();
                 }
                 TypeCode::Integer => {
-                    let bit_width = type_field!(0) as u32;
+                    let bit_width = u32::try_from(type_field!(0)).map_err(|e| {
+                        MapError::Invalid(format!("bad bit width for integer type: {}", e))
+                    })?;
                     partial_types.add(PartialType::Integer(PartialIntegerType { bit_width }));
                 }
                 TypeCode::Pointer => {
-- 
2.43.0


From 82ac2054cc4649fac2b15e2e30b4cedf3c72eadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 39/47] fix: every struct and opaque record is its own type
 table entry

---
 llvm-mapper/src/block/type_table.rs | 55 ++++++-----------------------
 1 file changed, 11 insertions(+), 44 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index c40bd3a..fbe11d8 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -237,10 +237,6 @@ impl PartialTypeTable {
         self.inner.push(ty)
     }
 
-    fn last_mut(&mut self) -> Option<&mut PartialType> {
-        self.inner.last_mut()
-    }
-
     /// Fallibly convert a `TypeRef` into its `PartialType` in this partial type table.
     fn get(&self, ty_ref: &TypeRef) -> Result<&PartialType, TypeTableError> {
         self.inner
@@ -345,25 +341,12 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .into());
                     }
 
-                    // Our opaque type might be forward-referenced. If so, we
-                    // fill in the previous type's name. Otherwise, we create
-                    // a new structure type with no body.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() {
-                            return Err(MapError::Invalid(
-                                "forward-declared opaque type already has name".into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types: vec![],
-                            is_packed: false,
-                        }));
-                    }
+                    // An opaque type is a structure type with no body.
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types: vec![],
+                        is_packed: false,
+                    }));
 
                     last_type_name.clear();
                 }
@@ -459,27 +442,11 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .map(|f| TypeRef(*f as usize))
                         .collect::<Vec<_>>();
 
-                    // Like with opaque types, we might be forward-referenced here.
-                    // If so, we update our pre-existing structure type with its
-                    // correct name and fields.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() || !s.field_types.is_empty() {
-                            return Err(MapError::Invalid(
-                                "forward-declared struct type already has name and/or type fields"
-                                    .into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                        s.field_types = field_types;
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types,
-                            is_packed,
-                        }));
-                    }
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types,
+                        is_packed,
+                    }));
 
                     last_type_name.clear();
                 }
-- 
2.43.0


From c3dd0a430bfad3bbf1609cf3039b7f253f04c683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 40/47] fix: recursive and very deep types are errors instead
 of stack overflows

---
 llvm-mapper/src/block/type_table.rs | 36 ++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index fbe11d8..b7420bd 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -32,6 +32,10 @@ pub enum TypeTableError {
     #[error("invalid type table structure (broken records)")]
     BadTable,
 
+    /// A type is recursive, or too deeply nested.
+    #[error("recursive or too deeply nested type")]
+    TooDeep,
+
     /// An invalid integer type was seen.
     #[error("invalid integer type")]
     InvalidIntegerType(#[from] IntegerTypeError),
@@ -61,6 +65,9 @@ pub enum TypeTableError {
     Map(#[from] MapError),
 }
 
+/// The maximum number of types that can be nested below a type in the type table.
+const MAX_TYPE_DEPTH: usize = 256;
+
 /// A symbolic type reference, which is really just an index into some
 /// unspecified type table.
 #[derive(Debug)]
@@ -108,7 +115,9 @@ enum PartialType {
 impl PartialType {
     /// Fallibly convert this `PartialType` into a `Type`, using the given
     /// `PartialTypeTable` as a reference.
-    fn resolve(&self, partials: &PartialTypeTable) -> Result<Type, TypeTableError> {
+    ///
+    /// `depth` is how many more types may be nested below this one.
+    fn resolve(&self, partials: &PartialTypeTable, depth: usize) -> Result<Type, TypeTableError> {
         match self {
             PartialType::Half => Ok(Type::Half),
             PartialType::BFloat => Ok(Type::BFloat),
@@ -125,17 +134,17 @@ impl PartialType {
             PartialType::Token => Ok(Type::Token),
             PartialType::Integer(ity) => Ok(Type::new_integer(ity.bit_width)?),
             PartialType::Function(fty) => {
-                let return_type = partials.resolve(&fty.return_type)?;
+                let return_type = partials.resolve(&fty.return_type, depth)?;
                 let param_types = fty
                     .param_types
                     .iter()
-                    .map(|ty_ref| partials.resolve(ty_ref))
+                    .map(|ty_ref| partials.resolve(ty_ref, depth))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_function(return_type, param_types, fty.is_vararg)?)
             }
             PartialType::Pointer(pty) => {
-                let pointee = partials.resolve(&pty.pointee)?;
+                let pointee = partials.resolve(&pty.pointee, depth)?;
 
                 Ok(Type::new_pointer(pointee, pty.address_space)?)
             }
@@ -144,7 +153,7 @@ impl PartialType {
                 let field_types = sty
                     .field_types
                     .iter()
-                    .map(|fty| partials.resolve(fty))
+                    .map(|fty| partials.resolve(fty, depth))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_struct(
@@ -154,20 +163,20 @@ impl PartialType {
                 )?)
             }
             PartialType::Array(aty) => {
-                let element_type = partials.resolve(&aty.element_type)?;
+                let element_type = partials.resolve(&aty.element_type, depth)?;
 
                 Ok(Type::new_array(aty.num_elements, element_type)?)
             }
             PartialType::FixedVector(vty) => {
                 log::debug!("vty: {:?}", vty);
 
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth)?;
                 log::debug!("element_type: {:?}", partials.get(&vty.element_type));
 
                 Ok(Type::new_vector(vty.num_elements, element_type)?)
             }
             PartialType::ScalableVector(vty) => {
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth)?;
 
                 Ok(Type::new_scalable_vector(vty.num_elements, element_type)?)
             }
@@ -245,14 +254,19 @@ impl PartialTypeTable {
     }
 
     /// Fallibly converts the given `TypeRef` into a fully owned `Type`.
-    fn resolve(&self, ty_ref: &TypeRef) -> Result<Type, TypeTableError> {
+    ///
+    /// `depth` is how many types may be nested in each other from here on. Types that
+    /// (directly or indirectly) contain themselves always exceed it.
+    fn resolve(&self, ty_ref: &TypeRef, depth: usize) -> Result<Type, TypeTableError> {
+        let depth = depth.checked_sub(1).ok_or(TypeTableError::TooDeep)?;
+
         // `TypeRef` resolution happens in two steps: we grab the corresponding
         // `PartialType`, and then resolve its subtypes.
         let pty = self.get(ty_ref)?;
 
         log::debug!("type ref {} resolves to {:?}", ty_ref.0, pty);
 
-        pty.resolve(self)
+        pty.resolve(self, depth)
     }
 
     /// Fallibly converts this `PartialTypeTable` into a `TypeTable`.
@@ -266,7 +280,7 @@ impl PartialTypeTable {
         let types = self
             .inner
             .iter()
-            .map(|pty| pty.resolve(&self))
+            .map(|pty| pty.resolve(&self, MAX_TYPE_DEPTH))
             .collect::<Result<Vec<_>, _>>()?;
 
         Ok(TypeTable(types))
-- 
2.43.0


From 8ea42c4627e25bbb294839c7de713b0d1bf8d47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 41/47] fix: very deeply nested blocks are an error instead of
 a stack overflow

---
 llvm-mapper/src/unroll.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 9671753..5f41f0f 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -15,6 +15,9 @@ use crate::error::Error;
 use crate::map::PartialMapCtx;
 use crate::record::{RecordBlobError, RecordStringError};
 
+/// The maximum depth of blocks within blocks. Real bitcode doesn't come close.
+const MAX_BLOCK_DEPTH: usize = 256;
+
 /// An "unrolled" record. This is internally indistinguishable from a raw bitstream
 /// [`Record`](llvm_bitstream::record::Record), but is newtyped to enforce proper
 /// isolation of concerns.
@@ -266,7 +269,12 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
         fn enter_block<T: AsRef<[u8]>>(
             bitstream: &mut Bitstream<T>,
             block: BsBlock,
+            depth: usize,
         ) -> Result<Block, Error> {
+            if depth >= MAX_BLOCK_DEPTH {
+                return Err(Error::Unroll("blocks are nested too deeply".into()));
+            }
+
             let mut unrolled_block = Block::new(block.block_id);
 
             // Once we're in a block, we do the following:
@@ -283,7 +291,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                 match entry? {
                     StreamEntry::Record(record) => unrolled_block.records.0.push(Record(record)),
                     StreamEntry::SubBlock(block) => {
-                        let unrolled_child = enter_block(bitstream, block)?;
+                        let unrolled_child = enter_block(bitstream, block, depth + 1)?;
                         unrolled_block
                             .blocks
                             .0
@@ -325,7 +333,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                     Error::Unroll("bitstream has non-blocks at the top-level scope".into())
                 })?;
 
-                enter_block(&mut bitstream, block)?
+                enter_block(&mut bitstream, block, 0)?
             };
 
             // Our top-level block can be one of four cases, if it's valid.
-- 
2.43.0


From 61978eb45acaf864ee9ae4430ee798f6dbd6d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 42/47] fix: function blocks don't reserve memory for their
 announced block count

---
 llvm-mapper/src/block/function/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/function/mod.rs b/llvm-mapper/src/block/function/mod.rs
index 605ede3..a798bc2 100644
--- a/llvm-mapper/src/block/function/mod.rs
+++ b/llvm-mapper/src/block/function/mod.rs
@@ -70,9 +70,14 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                 .ok_or(FunctionError::InvalidBlockCount)?
         };
 
+        if nblocks == 0 {
+            return Err(FunctionError::InvalidBlockCount);
+        }
+
+        // NOTE: The block count is not trustworthy, so nothing is reserved for it.
         // Like the type table, we need a little bit of a state machine to
         // construct each function's basic blocks and constituent instructions.
-        let mut _bbs: Vec<BasicBlock> = Vec::with_capacity(nblocks as usize);
+        let mut _bbs: Vec<BasicBlock> = Vec::new();
         let mut _bb = BasicBlock::default();
 
         for record in block.records.into_iter() {
-- 
2.43.0


From d7abd44b58d1534a5d3249450297c37af68f3b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 43/47] fix: function records that aren't supported yet are
 errors instead of panics

---
 llvm-mapper/src/block/function/mod.rs | 94 ++++++++++++++-------------
 1 file changed, 50 insertions(+), 44 deletions(-)

diff --git a/llvm-mapper/src/block/function/mod.rs b/llvm-mapper/src/block/function/mod.rs
index a798bc2..99411ee 100644
--- a/llvm-mapper/src/block/function/mod.rs
+++ b/llvm-mapper/src/block/function/mod.rs
@@ -43,6 +43,11 @@ pub enum FunctionError {
     Map(#[from] MapError),
 }
 
+/// The error for records that we can't map yet.
+fn unsupported(code: FunctionCode) -> FunctionError {
+    MapError::Unsupported(format!("function record: {:?}", code)).into()
+}
+
 /// Models the `MODULE_CODE_FUNCTION` record.
 #[non_exhaustive]
 #[derive(Debug)]
@@ -121,11 +126,11 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                 FunctionCode::DeclareBlocks => continue,
 
                 // Operand bundles.
-                FunctionCode::OperandBundle => unimplemented!(),
+                FunctionCode::OperandBundle => return Err(unsupported(code)),
 
                 // Debug state.
-                FunctionCode::DebugLoc => unimplemented!(),
-                FunctionCode::DebugLocAgain => unimplemented!(),
+                FunctionCode::DebugLoc => return Err(unsupported(code)),
+                FunctionCode::DebugLocAgain => return Err(unsupported(code)),
 
                 // The big one: all instructions.
                 FunctionCode::InstBinop => {
@@ -138,18 +143,18 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opval, opty, destty, castopc]
                     let [_opval, _opty, _destty, _castopc] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstGepOld => todo!(),
-                FunctionCode::InstSelect => todo!(),
-                FunctionCode::InstExtractelt => todo!(),
-                FunctionCode::InstInsertelt => todo!(),
-                FunctionCode::InstShufflevec => todo!(),
-                FunctionCode::InstCmp => todo!(),
-                FunctionCode::InstRet => todo!(),
-                FunctionCode::InstBr => todo!(),
-                FunctionCode::InstSwitch => todo!(),
-                FunctionCode::InstInvoke => todo!(),
-                FunctionCode::InstUnreachable => todo!(),
-                FunctionCode::InstPhi => todo!(),
+                FunctionCode::InstGepOld => return Err(unsupported(code)),
+                FunctionCode::InstSelect => return Err(unsupported(code)),
+                FunctionCode::InstExtractelt => return Err(unsupported(code)),
+                FunctionCode::InstInsertelt => return Err(unsupported(code)),
+                FunctionCode::InstShufflevec => return Err(unsupported(code)),
+                FunctionCode::InstCmp => return Err(unsupported(code)),
+                FunctionCode::InstRet => return Err(unsupported(code)),
+                FunctionCode::InstBr => return Err(unsupported(code)),
+                FunctionCode::InstSwitch => return Err(unsupported(code)),
+                FunctionCode::InstInvoke => return Err(unsupported(code)),
+                FunctionCode::InstUnreachable => return Err(unsupported(code)),
+                FunctionCode::InstPhi => return Err(unsupported(code)),
                 FunctionCode::InstAlloca => {
                     // [instty, opty, op, align]
                     let [_instty, _opty, _op, _align] = unpack_fields!(4)?;
@@ -158,49 +163,50 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opty, op, align, vol]
                     let [_opty, _op, _align, _vol] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstVaarg => todo!(),
-                FunctionCode::InstStoreOld => todo!(),
-                FunctionCode::InstExtractval => todo!(),
-                FunctionCode::InstInsertval => todo!(),
-                FunctionCode::InstCmp2 => todo!(),
-                FunctionCode::InstVselect => todo!(),
-                FunctionCode::InstInboundsGepOld => todo!(),
-                FunctionCode::InstIndirectbr => todo!(),
-                FunctionCode::InstCall => todo!(),
-                FunctionCode::InstFence => todo!(),
-                FunctionCode::InstCmpxchgOld => todo!(),
-                FunctionCode::InstAtomicrmwOld => todo!(),
-                FunctionCode::InstResume => todo!(),
-                FunctionCode::InstLandingpadOld => todo!(),
-                FunctionCode::InstLoadatomic => todo!(),
-                FunctionCode::InstStoreatomicOld => todo!(),
-                FunctionCode::InstGep => todo!(),
+                FunctionCode::InstVaarg => return Err(unsupported(code)),
+                FunctionCode::InstStoreOld => return Err(unsupported(code)),
+                FunctionCode::InstExtractval => return Err(unsupported(code)),
+                FunctionCode::InstInsertval => return Err(unsupported(code)),
+                FunctionCode::InstCmp2 => return Err(unsupported(code)),
+                FunctionCode::InstVselect => return Err(unsupported(code)),
+                FunctionCode::InstInboundsGepOld => return Err(unsupported(code)),
+                FunctionCode::InstIndirectbr => return Err(unsupported(code)),
+                FunctionCode::InstCall => return Err(unsupported(code)),
+                FunctionCode::InstFence => return Err(unsupported(code)),
+                FunctionCode::InstCmpxchgOld => return Err(unsupported(code)),
+                FunctionCode::InstAtomicrmwOld => return Err(unsupported(code)),
+                FunctionCode::InstResume => return Err(unsupported(code)),
+                FunctionCode::InstLandingpadOld => return Err(unsupported(code)),
+                FunctionCode::InstLoadatomic => return Err(unsupported(code)),
+                FunctionCode::InstStoreatomicOld => return Err(unsupported(code)),
+                FunctionCode::InstGep => return Err(unsupported(code)),
                 FunctionCode::InstStore => {
                     // [ptrty, ptr, valty, val, align, vol]
                     let [_ptrty, _ptr, _valty, _val] = unpack_fields!(4)?;
 
                     // NOTE: Two more optional fields: align and vol.
                 }
-                FunctionCode::InstStoreatomic => todo!(),
-                FunctionCode::InstCmpxchg => todo!(),
-                FunctionCode::InstLandingpad => todo!(),
-                FunctionCode::InstCleanupret => todo!(),
-                FunctionCode::InstCatchret => todo!(),
-                FunctionCode::InstCatchpad => todo!(),
-                FunctionCode::InstCleanuppad => todo!(),
-                FunctionCode::InstCatchswitch => todo!(),
+                FunctionCode::InstStoreatomic => return Err(unsupported(code)),
+                FunctionCode::InstCmpxchg => return Err(unsupported(code)),
+                FunctionCode::InstLandingpad => return Err(unsupported(code)),
+                FunctionCode::InstCleanupret => return Err(unsupported(code)),
+                FunctionCode::InstCatchret => return Err(unsupported(code)),
+                FunctionCode::InstCatchpad => return Err(unsupported(code)),
+                FunctionCode::InstCleanuppad => return Err(unsupported(code)),
+                FunctionCode::InstCatchswitch => return Err(unsupported(code)),
                 FunctionCode::InstUnop => {
                     // [opval, ty, opcode]
                     let [_opval, ty, opcode] = unpack_fields!(3)?;
                     let _ty = get_type!(ty)?;
                     let _opcode = UnaryOp::try_from(opcode)?;
                 }
-                FunctionCode::Instcallbr => todo!(),
-                FunctionCode::InstFreeze => todo!(),
-                FunctionCode::InstAtomicrmw => todo!(),
+                FunctionCode::Instcallbr => return Err(unsupported(code)),
+                FunctionCode::InstFreeze => return Err(unsupported(code)),
+                FunctionCode::InstAtomicrmw => return Err(unsupported(code)),
             }
         }
 
-        unimplemented!()
+        // TODO: Collect the instructions above into basic blocks.
+        Err(MapError::Unsupported("function blocks".into()).into())
     }
 }
-- 
2.43.0


From 9e45f55fc4a9091606f8d6e35d90ced15620ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 44/47] fix: function alignments are not truncated to 8 bits

---
 llvm-mapper/src/record/function.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/function.rs b/llvm-mapper/src/record/function.rs
index ed1966a..5c95513 100644
--- a/llvm-mapper/src/record/function.rs
+++ b/llvm-mapper/src/record/function.rs
@@ -49,6 +49,10 @@ pub enum FunctionError {
     #[error("invalid alignment")]
     Alignment(#[from] AlignError),
 
+    /// The function has an alignment that's too large to be valid.
+    #[error("alignment is too large: {0}")]
+    AlignmentTooBig(u64),
+
     /// The function has an invalid section table index.
     #[error("invalid section table index: {0}")]
     Section(usize),
@@ -155,7 +159,9 @@ impl<'ctx> CtxMappable<'ctx, Record> for Function<'ctx> {
 
         // TODO: Upgrade attributes here? It's what LLVM does.
 
-        let alignment = MaybeAlign::try_from(fields[7] as u8)?;
+        let alignment = MaybeAlign::try_from(
+            u8::try_from(fields[7]).map_err(|_| FunctionError::AlignmentTooBig(fields[7]))?,
+        )?;
 
         let section = match fields[8] as usize {
             0 => None,
-- 
2.43.0


From c876ecbe3b8e01e9f7d5ed4f05b5e863f1422bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 45/47] fix: COMDAT selection kinds are encoded from 1 on

---
 llvm-mapper/src/record/comdat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/record/comdat.rs b/llvm-mapper/src/record/comdat.rs
index 38a97ab..fcdaf8d 100644
--- a/llvm-mapper/src/record/comdat.rs
+++ b/llvm-mapper/src/record/comdat.rs
@@ -37,13 +37,13 @@ pub enum ComdatError {
 
 /// The different kinds of COMDAT selections.
 ///
-/// This is a nearly direct copy of LLVM's `SelectionKind`; see `IR/Comdat.h`.
+/// This is a nearly direct copy of LLVM's `ComdatSelectionKindCodes`; see `Bitcode/LLVMBitCodes.h`.
 #[non_exhaustive]
 #[derive(Debug, TryFromPrimitive)]
 #[repr(u64)]
 pub enum SelectionKind {
     /// The linker may choose any COMDAT.
-    Any,
+    Any = 1,
     /// The data referenced by the COMDAT must be the same.
     ExactMatch,
     /// The linker will choose the largest COMDAT.
-- 
2.43.0


From 4a94b5b4f5c5b26192551d0c85ae98e4a72008b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 46/47] fix: alias records have an address space before their
 aliasee

---
 llvm-mapper/src/record/alias.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/llvm-mapper/src/record/alias.rs b/llvm-mapper/src/record/alias.rs
index 4bad8d2..4d027f8 100644
--- a/llvm-mapper/src/record/alias.rs
+++ b/llvm-mapper/src/record/alias.rs
@@ -16,7 +16,7 @@ use crate::unroll::Record;
 #[derive(Debug, Error)]
 pub enum AliasError {
     /// The alias record is too short to be well-formed.
-    #[error("alias record too short: {0} < 5 fields")]
+    #[error("alias record too short: {0} < 6 fields")]
     TooShort(usize),
 
     /// The alias record is in an old unsupported format.
@@ -81,10 +81,10 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             return Err(AliasError::V1Unsupported);
         }
 
-        // Every alias record has at least 5 fields, corresponding to
-        // [strtab_offset, strtab_size, *v1], where v1 has 3 mandatory fields:
-        // [alias type, aliasee value#, linkage, ...]
-        if fields.len() < 5 {
+        // Every alias record has at least 6 fields, corresponding to
+        // [strtab_offset, strtab_size, *v1], where v1 has 4 mandatory fields:
+        // [alias type, addrspace, aliasee value#, linkage, ...]
+        if fields.len() < 6 {
             return Err(AliasError::TooShort(fields.len()));
         }
 
@@ -93,32 +93,32 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             .type_table
             .get(fields[2])
             .ok_or(AliasError::Type(fields[2]))?;
-        let value_index = fields[3];
-        let linkage = Linkage::from(fields[4]);
+        let value_index = fields[4];
+        let linkage = Linkage::from(fields[5]);
 
         let visibility = fields
-            .get(5)
+            .get(6)
             .map_or_else(|| Ok(Visibility::Default), |v| Visibility::try_from(*v))?;
 
-        let storage_class = fields.get(6).map_or_else(
+        let storage_class = fields.get(7).map_or_else(
             || Ok(DllStorageClass::Default),
             |v| DllStorageClass::try_from(*v),
         )?;
 
         let tls_mode = fields
-            .get(7)
+            .get(8)
             .copied()
             .map(ThreadLocalMode::from)
             .unwrap_or(ThreadLocalMode::NotThreadLocal);
 
         let unnamed_addr = fields
-            .get(8)
+            .get(9)
             .copied()
             .map(UnnamedAddr::from)
             .unwrap_or(UnnamedAddr::None);
 
         let preemption_specifier = fields
-            .get(9)
+            .get(10)
             .copied()
             .map(RuntimePreemption::from)
             .unwrap_or(RuntimePreemption::DsoPreemptable);
-- 
2.43.0


From d81d5f9af1f0008320941a292f1cc3b177d32b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 47/47] Verification hooks, behind cfg(vx_hooks)

---
 llvm-mapper/src/block/attributes.rs |   7 ++
 llvm-mapper/src/lib.rs              |   3 +
 llvm-mapper/src/unroll.rs           |  22 ++++
 llvm-mapper/src/vx_hooks.rs         | 184 ++++++++++++++++++++++++++++
 4 files changed, 216 insertions(+)
 create mode 100644 llvm-mapper/src/vx_hooks.rs

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index cc9e23a..c9a20bf 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -452,6 +452,13 @@ impl Attribute {
 #[derive(Debug)]
 pub struct AttributeEntry(Vec<AttributeGroup>);
 
+#[cfg(vx_hooks)]
+impl AttributeEntry {
+    pub(crate) fn vx_groups(&self) -> &[AttributeGroup] {
+        &self.0
+    }
+}
+
 /// Maps all attributes in an IR module.
 #[derive(Debug, Default)]
 pub struct Attributes(Vec<AttributeEntry>);
diff --git a/llvm-mapper/src/lib.rs b/llvm-mapper/src/lib.rs
index 32ce9e2..1a140bd 100644
--- a/llvm-mapper/src/lib.rs
+++ b/llvm-mapper/src/lib.rs
@@ -5,11 +5,14 @@
 #![deny(missing_docs)]
 #![allow(clippy::redundant_field_names)]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)]
 
 pub mod block;
 pub mod error;
 pub mod map;
 pub mod record;
 pub mod unroll;
+#[cfg(vx_hooks)]
+pub mod vx_hooks;
 
 pub use unroll::Bitcode;
diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 5f41f0f..00b0702 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -24,6 +24,25 @@ const MAX_BLOCK_DEPTH: usize = 256;
 #[derive(Clone, Debug)]
 pub struct Record(BsRecord);
 
+#[cfg(vx_hooks)]
+impl Record {
+    pub(crate) fn vx_new(record: BsRecord) -> Self {
+        Self(record)
+    }
+}
+
+#[cfg(vx_hooks)]
+impl Block {
+    pub(crate) fn vx_new(id: u64, records: Vec<Record>, blocks: Vec<Block>) -> Self {
+        let mut new = Block::new(id);
+        new.records.0 = records;
+        for block in blocks {
+            new.blocks.0.entry(block.id).or_default().push(block);
+        }
+        new
+    }
+}
+
 impl Record {
     /// Returns this record's code.
     pub fn code(&self) -> u64 {
@@ -336,6 +355,9 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                 enter_block(&mut bitstream, block, 0)?
             };
 
+            #[cfg(vx_hooks)]
+            crate::vx_hooks::observe(&top_block);
+
             // Our top-level block can be one of four cases, if it's valid.
             //
             // Handle each accordingly.
diff --git a/llvm-mapper/src/vx_hooks.rs b/llvm-mapper/src/vx_hooks.rs
new file mode 100644
index 0000000..1c6cca4
--- /dev/null
+++ b/llvm-mapper/src/vx_hooks.rs
@@ -0,0 +1,184 @@
+//! Verification hooks: access to otherwise private state and mapping steps.
+//!
+//! Only compiled with `--cfg vx_hooks`; nothing in this crate uses it.
+
+#![allow(missing_docs)]
+
+use std::cell::RefCell;
+use std::convert::TryFrom;
+
+use llvm_bitstream::record::Record as BsRecord;
+use llvm_support::Type;
+
+use crate::block::{
+    AttributeError, AttributeGroup, AttributeGroups, Attributes, BlockId, Module, ModuleError,
+    Strtab, TypeTable,
+};
+use crate::map::{CtxMappable, MapCtxError, PartialCtxMappable, PartialMapCtx};
+use crate::record::{Alias, AliasError, Comdat, ComdatError, DataLayout, Function, FunctionError};
+use crate::unroll::{Block, ConsistencyError, Record};
+
+pub fn record(code: u64, fields: Vec<u64>) -> Record {
+    Record::vx_new(BsRecord {
+        abbrev_id: None,
+        code,
+        fields,
+    })
+}
+
+pub fn block(id: u64, records: Vec<Record>, blocks: Vec<Block>) -> Block {
+    Block::vx_new(id, records, blocks)
+}
+
+thread_local! {
+    static SEEN: RefCell<Vec<Block>> = RefCell::new(Vec::new());
+}
+
+/// Remember a top-level block that was just unrolled.
+pub(crate) fn observe(block: &Block) {
+    SEEN.with(|s| s.borrow_mut().push(block.clone()));
+}
+
+/// All top-level blocks unrolled on this thread since the last call.
+pub fn take_observed() -> Vec<Block> {
+    SEEN.with(|s| s.borrow_mut().split_off(0))
+}
+
+pub fn records(block: &Block) -> Vec<&Record> {
+    block.records.into_iter().collect()
+}
+
+pub fn by_code(block: &Block, code: u64) -> Vec<&Record> {
+    block.records.by_code(code).collect()
+}
+
+pub fn one(block: &Block, code: u64) -> Option<&Record> {
+    block.records.one(code)
+}
+
+pub fn exactly_one(block: &Block, code: u64) -> Result<&Record, ConsistencyError> {
+    block.records.exactly_one(code)
+}
+
+pub fn one_or_none(block: &Block, code: u64) -> Result<Option<&Record>, ConsistencyError> {
+    block.records.one_or_none(code)
+}
+
+pub fn by_id(block: &Block, id: BlockId) -> Vec<&Block> {
+    block.blocks.by_id(id).collect()
+}
+
+pub fn exactly_one_block(block: &Block, id: BlockId) -> Result<&Block, ConsistencyError> {
+    block.blocks.exactly_one(id)
+}
+
+pub fn one_or_none_block(block: &Block, id: BlockId) -> Result<Option<&Block>, ConsistencyError> {
+    block.blocks.one_or_none(id)
+}
+
+pub fn group(groups: &AttributeGroups, id: u32) -> Option<&AttributeGroup> {
+    groups.get(id)
+}
+
+pub fn type_at(types: &TypeTable, index: u64) -> Option<&Type> {
+    types.get(index)
+}
+
+/// A mapping context.
+#[derive(Debug, Default)]
+pub struct Ctx(PartialMapCtx);
+
+impl Ctx {
+    pub fn set_version(&mut self, version: Option<u64>) {
+        self.0.version = version;
+    }
+
+    pub fn set_sections(&mut self, sections: Vec<String>) {
+        self.0.section_table = sections;
+    }
+
+    pub fn set_gcs(&mut self, gcs: Vec<String>) {
+        self.0.gc_table = gcs;
+    }
+
+    pub fn set_strtab(&mut self, strtab: Strtab) {
+        self.0.strtab = strtab;
+    }
+
+    pub fn set_groups(&mut self, groups: AttributeGroups) {
+        self.0.attribute_groups = groups;
+    }
+
+    pub fn set_types(&mut self, types: Option<TypeTable>) {
+        self.0.type_table = types;
+    }
+
+    /// Map an attributes block, and keep the result.
+    pub fn map_attributes(&mut self, block: &Block) -> Result<(), AttributeError> {
+        self.0.attributes = Attributes::try_from((block, &self.0))?;
+        Ok(())
+    }
+
+    /// The groups of the given attribute entry.
+    pub fn entry(&self, id: u64) -> Option<&[AttributeGroup]> {
+        self.0.attributes.get(id).map(|e| e.vx_groups())
+    }
+
+    pub fn map_function<R>(
+        &self,
+        record: &Record,
+        f: impl FnOnce(Result<Function, FunctionError>) -> R,
+    ) -> Result<R, MapCtxError> {
+        let ctx = self.0.reify()?;
+        Ok(f(Function::try_map(record, &ctx)))
+    }
+
+    pub fn map_alias<R>(
+        &self,
+        record: &Record,
+        f: impl FnOnce(Result<Alias, AliasError>) -> R,
+    ) -> Result<R, MapCtxError> {
+        let ctx = self.0.reify()?;
+        Ok(f(Alias::try_map(record, &ctx)))
+    }
+
+    pub fn map_comdat(&mut self, record: &Record) -> Result<Comdat, ComdatError> {
+        Comdat::try_map(record, &mut self.0)
+    }
+
+    pub fn map_module(&mut self, block: &Block) -> Result<Module, ModuleError> {
+        Module::try_from((block, &mut self.0))
+    }
+
+    pub fn version(&self) -> Option<u64> {
+        self.0.version
+    }
+
+    pub fn datalayout(&self) -> &DataLayout {
+        &self.0.datalayout
+    }
+
+    pub fn sections(&self) -> &[String] {
+        &self.0.section_table
+    }
+
+    pub fn gcs(&self) -> &[String] {
+        &self.0.gc_table
+    }
+
+    pub fn strtab(&self) -> &Strtab {
+        &self.0.strtab
+    }
+
+    pub fn groups(&self) -> &AttributeGroups {
+        &self.0.attribute_groups
+    }
+
+    pub fn types(&self) -> Option<&TypeTable> {
+        self.0.type_table.as_ref()
+    }
+
+    pub fn comdats(&self) -> &[Comdat] {
+        &self.0.comdats
+    }
+}
-- 
2.43.0

