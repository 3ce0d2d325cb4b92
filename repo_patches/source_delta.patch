From eb73ab24a918f94602c964a32fb2ed9240fee67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 01/47] fix: reject VBR encodings that do not fit into 64 bits

---
 llvm-bitcursor/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 70a6d59..34ea2a9 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -298,7 +298,15 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
             // Read a block, add it to the result (with the potential continuation bit masked off)
             let block = self.read(width)?;
             log::debug!("block: {:#b}, masked: {:#b}", block, block & !block_mask);
-            result |= (block & !block_mask) << shift;
+            let payload = block & !block_mask;
+            if payload != 0 {
+                // The encoded value has to fit into 64 bits: silently shifting
+                // set bits off of the end would produce a different value.
+                if shift >= Self::BLOCK_SIZE_BITS || (payload << shift) >> shift != payload {
+                    return Err(Error::BadCast);
+                }
+                result |= payload << shift;
+            }
 
             // If we don't have a continuation bit, then we're done with the VBR.
             let continuation = (block & block_mask) != 0;
-- 
2.43.0


From 46c97d406aeb9975ee7960a16d0d19da2ac45ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 02/47] fix: decode the signed VBR encoding of the most
 negative integer

---
 llvm-bitcursor/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 34ea2a9..3687a8b 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -333,7 +333,11 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
         let sgn = (result & 1) != 0;
         result >>= 1;
 
-        if sgn {
+        if sgn && result == 0 {
+            // There is no such thing as -0: LLVM uses this encoding for the most
+            // negative value, whose magnitude has no other representation.
+            Ok(isize::MIN)
+        } else if sgn {
             Ok(-(result as isize))
         } else {
             Ok(result as isize)
-- 
2.43.0


From d442a674d77fcac0f49aeea5fa8f920291c7461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 03/47] fix: align32 aligns on the absolute bit position

---
 llvm-bitcursor/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 3687a8b..651da89 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -350,11 +350,21 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
     pub fn align32(&mut self) {
         log::debug!("aligning the cursor");
 
-        if self.bit_index >= 32 {
-            self.current_block >>= self.bit_index - 32;
-            self.bit_index = 32;
+        // NOTE: The blocks we load don't necessarily begin on a 32-bit boundary
+        // (e.g. after a seek), so the amount to skip depends on our absolute position.
+        let misalignment = self.tell_bit() % 32;
+        if misalignment == 0 {
+            return;
+        }
+
+        let skip = 32 - misalignment;
+        if self.bit_index >= skip {
+            self.current_block >>= skip;
+            self.bit_index -= skip;
         } else {
+            let aligned_pos = (self.tell_bit() + skip) / 8;
             self.clear_block_state();
+            self.byte_pos = aligned_pos.min(self.byte_len());
         }
     }
 }
-- 
2.43.0


From 981bbe68d10c1aa4f7c215e9d72e1bda93f49700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 04/47] fix: avoid an overflow in relative seeks

---
 llvm-bitcursor/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 651da89..9fe8101 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -395,7 +395,9 @@ impl<T: AsRef<[u8]>> io::Seek for BitCursor<T> {
                 // Seeking backwards from the end is perfectly fine.
                 ((self.byte_len() as i64) + pos) as u64
             }
-            io::SeekFrom::Current(pos) => ((self.tell_byte() as i64) + pos) as u64,
+            io::SeekFrom::Current(pos) => (self.tell_byte() as i64).checked_add(pos).ok_or_else(
+                || io::Error::new(io::ErrorKind::InvalidInput, "impossible seek requested"),
+            )? as u64,
         } as usize;
 
         // Sanity check: we can't seek before or beyond the backing buffer.
-- 
2.43.0


From ad20daf3169384d9a440e8b4edfa0543a2a0e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 05/47] fix: do not allocate record fields based on untrusted
 lengths

---
 llvm-bitstream/src/abbrev.rs | 9 ++++-----
 llvm-bitstream/src/parser.rs | 3 ++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index e7293f7..e86c2a4 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -75,10 +75,10 @@ impl AbbrevOp {
             AbbrevOp::Array(elem) => {
                 // An array operand is encoded as a length (VBR6), followed by
                 // each encoded element of the array.
-                // TODO(ww): Sanity check array_len here.
+                // NOTE: We don't preallocate here, since the array length can't be trusted.
                 let array_len = cur.read_vbr(6)? as usize;
 
-                let mut fields: Fields = Vec::with_capacity(array_len);
+                let mut fields: Fields = vec![];
                 for _ in 0..array_len {
                     fields.extend(elem.parse(cur)?);
                 }
@@ -90,15 +90,14 @@ impl AbbrevOp {
                 // A blob operand is encoded as a length (VBR6), followed by a 32-bit aligned
                 // sequence of bytes, followed by another alignment back to 32 bits.
 
-                // TODO(ww): Sanity check blob_len here: it probably shouldn't be 0,
-                // and it definitely can't be longer than the stream.
+                // NOTE: We don't preallocate here, since the blob length can't be trusted.
                 let blob_len = cur.read_vbr(6)? as usize;
                 cur.align32();
 
                 // TODO(ww): This read loop is probably slower than it needs to be;
                 // `BitCursor` could probably learn a `read_bytes` API that's
                 // only allowed when the stream is byte-aligned.
-                let mut fields: Fields = Vec::with_capacity(blob_len);
+                let mut fields: Fields = vec![];
                 for _ in 0..blob_len {
                     fields.push(cur.read_exact::<u8>()?.into());
                 }
diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index a92a88a..e60e75d 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -322,7 +322,8 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         log::debug!("unabbrev record code={}, num_opnds={}", code, num_opnds);
 
-        let mut fields: Fields = Vec::with_capacity(num_opnds as usize);
+        // NOTE: We don't preallocate here, since the operand count can't be trusted.
+        let mut fields: Fields = vec![];
         for _ in 0..num_opnds {
             fields.push(self.cursor.read_vbr(6)?);
         }
-- 
2.43.0


From e4a1dde574bf28ca805f8d4cb6925162a2f814ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 06/47] fix: handle an abbreviation whose only operand is an
 array

---
 llvm-bitstream/src/abbrev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index e86c2a4..24309ad 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -173,7 +173,7 @@ impl Abbrev {
                 AbbrevOpEnc::Array => {
                     // There is only ever one array operand in an abbreviation definition,
                     // and it is always the second-to-last operand. Anything else is an error.
-                    if idx != num_abbrev_opnds - 2 {
+                    if idx + 2 != num_abbrev_opnds {
                         return Err(Error::AbbrevParse("array operand at invalid index".into()));
                     }
 
-- 
2.43.0


From a23204dd788a96a96e1011e18bcf440f473fa4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 07/47] fix: reject literal array elements in abbreviations

---
 llvm-bitstream/src/abbrev.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 24309ad..babd1df 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -182,7 +182,11 @@ impl Abbrev {
                     // `done_early` to indicate that we're done with operand parsing.
                     // This works since array operands are guaranteed to be second-to-last,
                     // followed only by their element operand encoding.
-                    cur.read(1)?;
+                    if cur.read(1)? == 1 {
+                        return Err(Error::AbbrevParse(
+                            "array elements cannot be literals".into(),
+                        ));
+                    }
                     let elem_enc: AbbrevOpEnc = cur.read(3)?.try_into()?;
                     done_early = true;
 
-- 
2.43.0


From bb68694fa20e15469a36b12027204b8ad004ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 08/47] fix: support zero-width abbreviation operands

---
 llvm-bitstream/src/abbrev.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index babd1df..5eff65c 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -168,8 +168,15 @@ impl Abbrev {
             // operand encoding includes extra data.
             let enc: AbbrevOpEnc = cur.read(3)?.try_into()?;
             let opnd = match enc {
-                AbbrevOpEnc::Fixed => AbbrevOp::Fixed(cur.read_vbr(5)?),
-                AbbrevOpEnc::Vbr => AbbrevOp::Vbr(cur.read_vbr(5)?),
+                // Like LLVM, we treat zero-width fields as a literal zero.
+                AbbrevOpEnc::Fixed => match cur.read_vbr(5)? {
+                    0 => AbbrevOp::Literal(0),
+                    width => AbbrevOp::Fixed(width),
+                },
+                AbbrevOpEnc::Vbr => match cur.read_vbr(5)? {
+                    0 => AbbrevOp::Literal(0),
+                    width => AbbrevOp::Vbr(width),
+                },
                 AbbrevOpEnc::Array => {
                     // There is only ever one array operand in an abbreviation definition,
                     // and it is always the second-to-last operand. Anything else is an error.
-- 
2.43.0


From c2895bfa55b6a9a981ab2517fcabca71efb65b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 09/47] fix: reject abbreviated records that lack a record code

---
 llvm-bitstream/src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index e60e75d..62d2108 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -362,8 +362,15 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         let mut fields = abbrev.parse(&mut self.cursor)?;
         log::debug!("parsed fields: {:?}", fields);
 
-        // Panic safety: every abbrev contains at least one operand, so this cannot panic.
-        // We also expect the first operand to always be a u64, indicating the record code.
+        // Every abbrev contains at least one operand, but an empty array or blob
+        // doesn't supply any fields.
+        if fields.is_empty() {
+            return Err(Error::StreamParse(
+                "abbreviated record without a record code".into(),
+            ));
+        }
+
+        // We expect the first operand to always be a u64, indicating the record code.
         let code: u64 = fields.remove(0);
 
         if self.scope().is_blockinfo() {
-- 
2.43.0


From 393a748e19af3253061e125dd2e6e246f22b688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 10/47] fix: reject SETBID records without a block ID

---
 llvm-bitstream/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 62d2108..ba998bd 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -333,7 +333,10 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             let code: BlockInfoCode = record.code.try_into()?;
             match code {
                 BlockInfoCode::SetBid => {
-                    let block_id: u64 = record.fields[0];
+                    let block_id: u64 = *record
+                        .fields
+                        .first()
+                        .ok_or_else(|| Error::StreamParse("SETBID without a block ID".into()))?;
                     log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
                     self.scope_mut().set_blockinfo_block_id(block_id)?;
                 }
-- 
2.43.0


From 6e1008f8df6084dde3876ac1120be2e69b7cd9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 11/47] fix: interpret abbreviated records in BLOCKINFO

---
 llvm-bitstream/src/parser.rs | 47 ++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index ba998bd..3422636 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -304,6 +304,28 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         Ok(())
     }
 
+    /// Interpret a record within a `BLOCKINFO` block.
+    fn interpret_blockinfo(&mut self, record: &Record) -> Result<(), Error> {
+        let code: BlockInfoCode = record.code.try_into()?;
+        match code {
+            BlockInfoCode::SetBid => {
+                let block_id: u64 = *record
+                    .fields
+                    .first()
+                    .ok_or_else(|| Error::StreamParse("SETBID without a block ID".into()))?;
+                log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
+                self.scope_mut().set_blockinfo_block_id(block_id)?;
+            }
+            BlockInfoCode::BlockName => log::debug!("skipping BLOCKNAME code in BLOCKINFO"),
+            BlockInfoCode::SetRecordName => {
+                log::debug!("skipping SETRECORDNAME code in BLOCKINFO")
+            }
+            o => log::debug!("skipping unsupported record {:?} in BLOCKINFO", o),
+        }
+
+        Ok(())
+    }
+
     /// Interpret an `UNABBREV_RECORD` record.
     fn parse_unabbrev(&mut self) -> Result<Option<StreamEntry>, Error> {
         // Sanity check: `UNABBREV_RECORD` can only occur inside a block,
@@ -330,22 +352,7 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         let record = Record::from_unabbrev(code, fields);
         if self.scope().is_blockinfo() {
-            let code: BlockInfoCode = record.code.try_into()?;
-            match code {
-                BlockInfoCode::SetBid => {
-                    let block_id: u64 = *record
-                        .fields
-                        .first()
-                        .ok_or_else(|| Error::StreamParse("SETBID without a block ID".into()))?;
-                    log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
-                    self.scope_mut().set_blockinfo_block_id(block_id)?;
-                }
-                BlockInfoCode::BlockName => log::debug!("skipping BLOCKNAME code in BLOCKINFO"),
-                BlockInfoCode::SetRecordName => {
-                    log::debug!("skipping SETRECORDNAME code in BLOCKINFO")
-                }
-                o => log::debug!("skipping unsupported record {:?} in BLOCKINFO", o),
-            };
+            self.interpret_blockinfo(&record)?;
             return Ok(None);
         }
 
@@ -376,15 +383,13 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         // We expect the first operand to always be a u64, indicating the record code.
         let code: u64 = fields.remove(0);
 
+        let record = Record::from_abbrev(abbrev_id, code, fields);
         if self.scope().is_blockinfo() {
+            self.interpret_blockinfo(&record)?;
             return Ok(None);
         }
 
-        Ok(Some(StreamEntry::Record(Record {
-            abbrev_id: Some(abbrev_id),
-            code: code,
-            fields: fields,
-        })))
+        Ok(Some(StreamEntry::Record(record)))
     }
 
     /// Return the next [`StreamEntry`](StreamEntry) in this bitstream.
-- 
2.43.0


From 142d7139f1c945531ceedc1bb7f8aba94e701b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 12/47] fix: do not recurse while skipping parse details

---
 llvm-bitstream/src/parser.rs | 83 +++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 43 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 3422636..8f5f546 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -398,51 +398,48 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
     /// [`Error::Exhausted`](Error::Exhausted) if the bitstream has
     /// been fully consumed.
     pub fn advance(&mut self) -> Result<StreamEntry, Error> {
-        if self.cursor.exhausted() {
-            return Err(Error::Exhausted);
-        }
-
-        log::debug!(
-            "advancing, current scope: {:?} @ bit position {}",
-            self.scope(),
-            self.cursor.tell_bit()
-        );
-
-        // To return the next stream entry, we read the next abbreviation ID using
-        // our current width. The abbreviation ID we read determines our subsequent
-        // parse strategy and the kind of entry we return.
-        let id: abbrev::AbbrevId = self
-            .cursor
-            .read(self.scope().abbrev_id_width() as usize)?
-            .into();
-        log::debug!("next entry ID: {:?}", id);
-
-        // NOTE(ww): The strange `map` + `unwrap_or_else` pattern below is to keep the parser
-        // generalized without having to return `StreamEntries` that correspond to
-        // parse details that a stream consumer shouldn't have to be aware of
-        // (such as abbrev definitions and the BLOCKINFO block).
-        match id {
-            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => {
-                self.exit_block()?.map(Ok).unwrap_or_else(|| self.advance())
+        // NOTE: This is a loop rather than recursion, since there's no bound on the number
+        // of consecutive parse details (e.g. abbreviation definitions) in a stream.
+        loop {
+            if self.cursor.exhausted() {
+                return Err(Error::Exhausted);
             }
-            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self
-                .enter_block()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
-            AbbrevId::Reserved(ReservedAbbrevId::DefineAbbrev) => {
-                // DEFINE_ABBREV is always a parse detail, so we don't even bother
-                // trying to return a StreamEntry for it.
-                self.define_abbrev()?;
-                self.advance()
+
+            log::debug!(
+                "advancing, current scope: {:?} @ bit position {}",
+                self.scope(),
+                self.cursor.tell_bit()
+            );
+
+            // To return the next stream entry, we read the next abbreviation ID using
+            // our current width. The abbreviation ID we read determines our subsequent
+            // parse strategy and the kind of entry we return.
+            let id: abbrev::AbbrevId = self
+                .cursor
+                .read(self.scope().abbrev_id_width() as usize)?
+                .into();
+            log::debug!("next entry ID: {:?}", id);
+
+            // NOTE(ww): Some of these don't produce an entry, to keep the parser
+            // generalized without having to return `StreamEntries` that correspond to
+            // parse details that a stream consumer shouldn't have to be aware of
+            // (such as abbrev definitions and the BLOCKINFO block).
+            let entry = match id {
+                AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => self.exit_block()?,
+                AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self.enter_block()?,
+                AbbrevId::Reserved(ReservedAbbrevId::DefineAbbrev) => {
+                    // DEFINE_ABBREV is always a parse detail, so we don't even bother
+                    // trying to return a StreamEntry for it.
+                    self.define_abbrev()?;
+                    None
+                }
+                AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self.parse_unabbrev()?,
+                AbbrevId::Defined(abbrev_id) => self.parse_with_abbrev(abbrev_id)?,
+            };
+
+            if let Some(entry) = entry {
+                return Ok(entry);
             }
-            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self
-                .parse_unabbrev()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
-            AbbrevId::Defined(abbrev_id) => self
-                .parse_with_abbrev(abbrev_id)?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
         }
     }
 }
-- 
2.43.0


From 3d27ba8c4ea65628fe7a04b9d821bb1ffe8f1154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 13/47] fix: compute the extent of a wrapped bitstream from its
 offset

---
 llvm-bitstream/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/llvm-bitstream/src/lib.rs b/llvm-bitstream/src/lib.rs
index 8b68c61..6799693 100644
--- a/llvm-bitstream/src/lib.rs
+++ b/llvm-bitstream/src/lib.rs
@@ -120,10 +120,10 @@ impl<T: AsRef<[u8]>> Bitstream<T> {
         // NOTE(ww): The `new_with_len` API is a little bit silly -- ideally we'd just
         // take a slice of `inner` and create a new `BitCursor` with it, but we can't do
         // that while preserving the generic `T` bound.
-        // The manual fixup (+ 20) is another artifact of this -- we keep the wrapper header
-        // in the new cursor to make the offsets more intelligible, which means that we
-        // also need to extend the end of our cursor's buffer.
-        let actual_length = (wrapper.size as usize) + 20;
+        // The manual fixup (+ offset) is another artifact of this -- we keep everything before
+        // the bitstream in the new cursor to make the offsets more intelligible, which means
+        // that we also need to extend the end of our cursor's buffer.
+        let actual_length = (wrapper.size as usize) + (wrapper.offset as usize);
         let mut cur = BitCursor::new_with_len(inner, actual_length)?;
 
         cur.seek(SeekFrom::Start(wrapper.offset.into()))
-- 
2.43.0


From d96bbe4284bf93dc3a57f46e7d21f9ffe92cb542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 14/47] fix: extracting a string or blob from an empty record
 is an error

---
 llvm-mapper/src/unroll.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 614ccd0..8b1d1fe 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -34,7 +34,7 @@ impl Record {
     pub fn try_string(&self, idx: usize) -> Result<String, RecordStringError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx + 1 >= self.0.fields.len() {
             return Err(RecordStringError::BadIndex(idx, self.0.fields.len()));
         }
 
@@ -54,7 +54,7 @@ impl Record {
     pub fn try_blob(&self, idx: usize) -> Result<Vec<u8>, RecordBlobError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx + 1 >= self.0.fields.len() {
             return Err(RecordBlobError::BadIndex(idx, self.0.fields.len()));
         }
 
-- 
2.43.0


From 0c88411b15bbb850a309e2b5361ce819104ae672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 15/47] fix: limit the block nesting depth while unrolling

---
 llvm-mapper/src/unroll.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 8b1d1fe..6537618 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -15,6 +15,10 @@ use crate::error::Error;
 use crate::map::PartialMapCtx;
 use crate::record::{RecordBlobError, RecordStringError};
 
+/// The maximum depth of nested blocks that we're willing to unroll. This is far deeper than
+/// anything that LLVM emits, and protects us from exhausting the stack on a malformed bitstream.
+const MAX_BLOCK_DEPTH: usize = 64;
+
 /// An "unrolled" record. This is internally indistinguishable from a raw bitstream
 /// [`Record`](llvm_bitstream::record::Record), but is newtyped to enforce proper
 /// isolation of concerns.
@@ -266,7 +270,12 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
         fn enter_block<T: AsRef<[u8]>>(
             bitstream: &mut Bitstream<T>,
             block: BsBlock,
+            depth: usize,
         ) -> Result<Block, Error> {
+            if depth > MAX_BLOCK_DEPTH {
+                return Err(Error::Unroll("blocks are nested too deeply".into()));
+            }
+
             let mut unrolled_block = Block::new(block.block_id);
 
             // Once we're in a block, we do the following:
@@ -283,7 +292,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                 match entry? {
                     StreamEntry::Record(record) => unrolled_block.records.0.push(Record(record)),
                     StreamEntry::SubBlock(block) => {
-                        let unrolled_child = enter_block(bitstream, block)?;
+                        let unrolled_child = enter_block(bitstream, block, depth + 1)?;
                         unrolled_block
                             .blocks
                             .0
@@ -325,7 +334,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                     Error::Unroll("bitstream has non-blocks at the top-level scope".into())
                 })?;
 
-                enter_block(&mut bitstream, block)?
+                enter_block(&mut bitstream, block, 1)?
             };
 
             // Our top-level block can be one of four cases, if it's valid.
-- 
2.43.0


From c40ed3407d5cb0a59082fb70eae0e7db5630ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 16/47] fix: avoid an overflow in string table lookups

---
 llvm-mapper/src/block/strtab.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/llvm-mapper/src/block/strtab.rs b/llvm-mapper/src/block/strtab.rs
index 8b1548f..58f8d25 100644
--- a/llvm-mapper/src/block/strtab.rs
+++ b/llvm-mapper/src/block/strtab.rs
@@ -79,13 +79,20 @@ impl Strtab {
     pub fn try_get(&self, sref: &StrtabRef) -> Result<&str, StrtabError> {
         let inner = self.as_ref();
 
-        if sref.size == 0 || sref.offset >= inner.len() || sref.offset + sref.size > inner.len() {
+        if sref.size == 0 {
             return Err(StrtabError::BadRange);
         }
 
-        Ok(std::str::from_utf8(
-            &inner[sref.offset..sref.offset + sref.size],
-        )?)
+        // NOTE: The offset and size are both untrusted, so their sum can overflow.
+        let end = sref
+            .offset
+            .checked_add(sref.size)
+            .ok_or(StrtabError::BadRange)?;
+        let bytes = inner
+            .get(sref.offset..end)
+            .ok_or(StrtabError::BadRange)?;
+
+        Ok(std::str::from_utf8(bytes)?)
     }
 
     /// Attempts to read a record's name from the string table.
-- 
2.43.0


From 0aefda2162a066974b2b3e28dd39ee6703936187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 17/47] fix: map unnamed functions and aliases

---
 llvm-mapper/src/block/strtab.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/llvm-mapper/src/block/strtab.rs b/llvm-mapper/src/block/strtab.rs
index 58f8d25..164b91a 100644
--- a/llvm-mapper/src/block/strtab.rs
+++ b/llvm-mapper/src/block/strtab.rs
@@ -104,6 +104,11 @@ impl Strtab {
     pub(crate) fn read_name(&self, record: &Record) -> Result<&str, StrtabError> {
         let fields = record.fields();
 
+        // Not every value has a name: LLVM records an empty span for the ones that don't.
+        if fields[1] == 0 {
+            return Ok("");
+        }
+
         self.try_get(&(fields[0], fields[1]).into())
     }
 }
-- 
2.43.0


From 1a09a543b9f8870e135649ae12dc0d882babde75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 18/47] fix: do not allocate the type table based on an
 untrusted size

---
 llvm-mapper/src/block/type_table.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 3ffdaa9..dbbaa95 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -228,7 +228,8 @@ impl PartialTypeTable {
     fn new(numentries: usize) -> Self {
         Self {
             numentries: numentries,
-            inner: Vec::with_capacity(numentries),
+            // NOTE: We don't preallocate here, since the entry count can't be trusted.
+            inner: vec![],
         }
     }
 
-- 
2.43.0


From 7f5bd243cead31cf62b25667228827ddeea9e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 19/47] fix: reject recursive types instead of overflowing the
 stack

---
 llvm-mapper/src/block/type_table.rs | 36 ++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index dbbaa95..616f2c6 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -13,6 +13,10 @@ use thiserror::Error;
 use crate::map::MapError;
 use crate::unroll::Block;
 
+/// The maximum nesting depth of any single type. This protects us from exhausting the stack
+/// on types that contain themselves, which we can't represent.
+const MAX_TYPE_DEPTH: usize = 128;
+
 /// Errors that can occur when mapping the type table.
 #[derive(Debug, Error)]
 pub enum TypeTableError {
@@ -108,7 +112,17 @@ enum PartialType {
 impl PartialType {
     /// Fallibly convert this `PartialType` into a `Type`, using the given
     /// `PartialTypeTable` as a reference.
-    fn resolve(&self, partials: &PartialTypeTable) -> Result<Type, TypeTableError> {
+    fn resolve(
+        &self,
+        partials: &PartialTypeTable,
+        depth: usize,
+    ) -> Result<Type, TypeTableError> {
+        // Types can reference any entry in the table, including themselves.
+        if depth > MAX_TYPE_DEPTH {
+            return Err(MapError::Invalid("recursive or too deeply nested type".into()).into());
+        }
+        let depth = depth + 1;
+
         match self {
             PartialType::Half => Ok(Type::Half),
             PartialType::BFloat => Ok(Type::BFloat),
@@ -125,17 +139,17 @@ impl PartialType {
             PartialType::Token => Ok(Type::Token),
             PartialType::Integer(ity) => Ok(Type::new_integer(ity.bit_width)?),
             PartialType::Function(fty) => {
-                let return_type = partials.resolve(&fty.return_type)?;
+                let return_type = partials.resolve(&fty.return_type, depth)?;
                 let param_types = fty
                     .param_types
                     .iter()
-                    .map(|ty_ref| partials.resolve(ty_ref))
+                    .map(|ty_ref| partials.resolve(ty_ref, depth))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_function(return_type, param_types, fty.is_vararg)?)
             }
             PartialType::Pointer(pty) => {
-                let pointee = partials.resolve(&pty.pointee)?;
+                let pointee = partials.resolve(&pty.pointee, depth)?;
 
                 Ok(Type::new_pointer(pointee, pty.address_space)?)
             }
@@ -144,7 +158,7 @@ impl PartialType {
                 let field_types = sty
                     .field_types
                     .iter()
-                    .map(|fty| partials.resolve(fty))
+                    .map(|fty| partials.resolve(fty, depth))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_struct(
@@ -154,20 +168,20 @@ impl PartialType {
                 )?)
             }
             PartialType::Array(aty) => {
-                let element_type = partials.resolve(&aty.element_type)?;
+                let element_type = partials.resolve(&aty.element_type, depth)?;
 
                 Ok(Type::new_array(aty.num_elements, element_type)?)
             }
             PartialType::FixedVector(vty) => {
                 log::debug!("vty: {:?}", vty);
 
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth)?;
                 log::debug!("element_type: {:?}", partials.get(&vty.element_type));
 
                 Ok(Type::new_vector(vty.num_elements, element_type)?)
             }
             PartialType::ScalableVector(vty) => {
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth)?;
 
                 Ok(Type::new_scalable_vector(vty.num_elements, element_type)?)
             }
@@ -249,14 +263,14 @@ impl PartialTypeTable {
     }
 
     /// Fallibly converts the given `TypeRef` into a fully owned `Type`.
-    fn resolve(&self, ty_ref: &TypeRef) -> Result<Type, TypeTableError> {
+    fn resolve(&self, ty_ref: &TypeRef, depth: usize) -> Result<Type, TypeTableError> {
         // `TypeRef` resolution happens in two steps: we grab the corresponding
         // `PartialType`, and then resolve its subtypes.
         let pty = self.get(ty_ref)?;
 
         log::debug!("type ref {} resolves to {:?}", ty_ref.0, pty);
 
-        pty.resolve(self)
+        pty.resolve(self, depth)
     }
 
     /// Fallibly converts this `PartialTypeTable` into a `TypeTable`.
@@ -270,7 +284,7 @@ impl PartialTypeTable {
         let types = self
             .inner
             .iter()
-            .map(|pty| pty.resolve(&self))
+            .map(|pty| pty.resolve(&self, 0))
             .collect::<Result<Vec<_>, _>>()?;
 
         Ok(TypeTable(types))
-- 
2.43.0


From ffd3f6ce0ec52cde0c556474cf266af5aeaf2253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 20/47] fix: give every identified structure type its own type
 table entry

---
 llvm-mapper/src/block/type_table.rs | 73 +++++++----------------------
 1 file changed, 18 insertions(+), 55 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 616f2c6..5d67c84 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -228,6 +228,12 @@ struct PartialVectorType {
     element_type: TypeRef,
 }
 
+/// Takes the name supplied by any preceding `TYPE_CODE_STRUCT_NAME` records. Identified
+/// structure types don't necessarily have a name.
+fn take_type_name(last_type_name: &mut String) -> Option<String> {
+    Some(std::mem::take(last_type_name)).filter(|name| !name.is_empty())
+}
+
 /// Represents a partial type table.
 ///
 /// Every partial type table starts out empty (but with an expected ultimate size),
@@ -251,10 +257,6 @@ impl PartialTypeTable {
         self.inner.push(ty)
     }
 
-    fn last_mut(&mut self) -> Option<&mut PartialType> {
-        self.inner.last_mut()
-    }
-
     /// Fallibly convert a `TypeRef` into its `PartialType` in this partial type table.
     fn get(&self, ty_ref: &TypeRef) -> Result<&PartialType, TypeTableError> {
         self.inner
@@ -352,34 +354,13 @@ impl TryFrom<&'_ Block> for TypeTable {
                     // doesn't seem to use that field for anything.
                     // Not sure what's up with that.
 
-                    if last_type_name.is_empty() {
-                        return Err(MapError::Invalid(
-                            "opaque type but no preceding type name".into(),
-                        )
-                        .into());
-                    }
-
-                    // Our opaque type might be forward-referenced. If so, we
-                    // fill in the previous type's name. Otherwise, we create
-                    // a new structure type with no body.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() {
-                            return Err(MapError::Invalid(
-                                "forward-declared opaque type already has name".into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types: vec![],
-                            is_packed: false,
-                        }));
-                    }
-
-                    last_type_name.clear();
+                    // NOTE: References to other types are symbolic (i.e. by index), so a forward
+                    // reference to this type doesn't create an entry for us to fill in.
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: take_type_name(&mut last_type_name),
+                        field_types: vec![],
+                        is_packed: false,
+                    }));
                 }
                 TypeCode::Integer => {
                     let bit_width = type_field!(0) as u32;
@@ -471,29 +452,11 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .map(|f| TypeRef(*f as usize))
                         .collect::<Vec<_>>();
 
-                    // Like with opaque types, we might be forward-referenced here.
-                    // If so, we update our pre-existing structure type with its
-                    // correct name and fields.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() || !s.field_types.is_empty() {
-                            return Err(MapError::Invalid(
-                                "forward-declared struct type already has name and/or type fields"
-                                    .into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                        s.field_types = field_types;
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types,
-                            is_packed,
-                        }));
-                    }
-
-                    last_type_name.clear();
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: take_type_name(&mut last_type_name),
+                        field_types,
+                        is_packed,
+                    }));
                 }
                 TypeCode::Function => {
                     let is_vararg = type_field!(0) > 0;
-- 
2.43.0


From f27ebdb5d9b12e19ae2e6fc0892ae44dd990b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 21/47] fix: do not truncate integer type widths

---
 llvm-mapper/src/block/type_table.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 5d67c84..b6861b6 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -363,7 +363,8 @@ impl TryFrom<&'_ Block> for TypeTable {
                     }));
                 }
                 TypeCode::Integer => {
-                    let bit_width = type_field!(0) as u32;
+                    let bit_width =
+                        u32::try_from(type_field!(0)).map_err(|_| IntegerTypeError::BadWidth)?;
                     partial_types.add(PartialType::Integer(PartialIntegerType { bit_width }));
                 }
                 TypeCode::Pointer => {
-- 
2.43.0


From de3e22b91f2ecfdb59074b5b7c4bbf5cea777d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 22/47] fix: default the address space of pointer types

---
 llvm-mapper/src/block/type_table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index b6861b6..b7214b8 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -370,7 +370,9 @@ impl TryFrom<&'_ Block> for TypeTable {
                 TypeCode::Pointer => {
                     let pointee = TypeRef(type_field!(0) as usize);
 
-                    let address_space = AddressSpace::try_from(type_field!(1)).map_err(|e| {
+                    // The address space is optional, and defaults to 0.
+                    let address_space = record.fields().get(1).copied().unwrap_or(0);
+                    let address_space = AddressSpace::try_from(address_space).map_err(|e| {
                         MapError::Invalid(format!("bad address space for pointer type: {:?}", e))
                     })?;
 
-- 
2.43.0


From 4aff95c5a3dc177bdb8a7511dc353720475e62c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 23/47] fix: do not truncate function alignments

---
 llvm-mapper/src/record/function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/function.rs b/llvm-mapper/src/record/function.rs
index ed1966a..25ca40e 100644
--- a/llvm-mapper/src/record/function.rs
+++ b/llvm-mapper/src/record/function.rs
@@ -155,7 +155,8 @@ impl<'ctx> CtxMappable<'ctx, Record> for Function<'ctx> {
 
         // TODO: Upgrade attributes here? It's what LLVM does.
 
-        let alignment = MaybeAlign::try_from(fields[7] as u8)?;
+        // NOTE: Anything that doesn't fit into a `u8` is well beyond the maximum alignment.
+        let alignment = MaybeAlign::try_from(u8::try_from(fields[7]).unwrap_or(u8::MAX))?;
 
         let section = match fields[8] as usize {
             0 => None,
-- 
2.43.0


From 0bc0812378874e75531c6760598b701b95421565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 24/47] fix: allow vectors of opaque pointers

---
 llvm-support/src/ty.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/ty.rs b/llvm-support/src/ty.rs
index f015dff..395f5ce 100644
--- a/llvm-support/src/ty.rs
+++ b/llvm-support/src/ty.rs
@@ -166,7 +166,10 @@ impl Type {
     /// assert!(!Type::Metadata.is_vector_element());
     /// ```
     pub fn is_vector_element(&self) -> bool {
-        self.is_floating() || matches!(self, Type::Integer(_) | Type::Pointer(_))
+        self.is_floating() || matches!(
+                self,
+                Type::Integer(_) | Type::Pointer(_) | Type::OpaquePointer(_)
+            )
     }
 
     /// Returns whether this type is "first class", i.e. is a valid type for an LLVM value.
-- 
2.43.0


From 7f1c3f7886fa83c81f54139e43459c7a0a230033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 25/47] fix: account for the address space in alias records

---
 llvm-mapper/src/record/alias.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/llvm-mapper/src/record/alias.rs b/llvm-mapper/src/record/alias.rs
index 4bad8d2..5e7581a 100644
--- a/llvm-mapper/src/record/alias.rs
+++ b/llvm-mapper/src/record/alias.rs
@@ -16,7 +16,7 @@ use crate::unroll::Record;
 #[derive(Debug, Error)]
 pub enum AliasError {
     /// The alias record is too short to be well-formed.
-    #[error("alias record too short: {0} < 5 fields")]
+    #[error("alias record too short: {0} < 6 fields")]
     TooShort(usize),
 
     /// The alias record is in an old unsupported format.
@@ -81,10 +81,10 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             return Err(AliasError::V1Unsupported);
         }
 
-        // Every alias record has at least 5 fields, corresponding to
-        // [strtab_offset, strtab_size, *v1], where v1 has 3 mandatory fields:
-        // [alias type, aliasee value#, linkage, ...]
-        if fields.len() < 5 {
+        // Every alias record has at least 6 fields, corresponding to
+        // [strtab_offset, strtab_size, *v1], where v1 has 4 mandatory fields:
+        // [alias type, address space, aliasee value#, linkage, ...]
+        if fields.len() < 6 {
             return Err(AliasError::TooShort(fields.len()));
         }
 
@@ -93,32 +93,32 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             .type_table
             .get(fields[2])
             .ok_or(AliasError::Type(fields[2]))?;
-        let value_index = fields[3];
-        let linkage = Linkage::from(fields[4]);
+        let value_index = fields[4];
+        let linkage = Linkage::from(fields[5]);
 
         let visibility = fields
-            .get(5)
+            .get(6)
             .map_or_else(|| Ok(Visibility::Default), |v| Visibility::try_from(*v))?;
 
-        let storage_class = fields.get(6).map_or_else(
+        let storage_class = fields.get(7).map_or_else(
             || Ok(DllStorageClass::Default),
             |v| DllStorageClass::try_from(*v),
         )?;
 
         let tls_mode = fields
-            .get(7)
+            .get(8)
             .copied()
             .map(ThreadLocalMode::from)
             .unwrap_or(ThreadLocalMode::NotThreadLocal);
 
         let unnamed_addr = fields
-            .get(8)
+            .get(9)
             .copied()
             .map(UnnamedAddr::from)
             .unwrap_or(UnnamedAddr::None);
 
         let preemption_specifier = fields
-            .get(9)
+            .get(10)
             .copied()
             .map(RuntimePreemption::from)
             .unwrap_or(RuntimePreemption::DsoPreemptable);
-- 
2.43.0


From d73db13a1836f1657aab885e4f192c8617aa4e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 26/47] fix: decode COMDAT selection kinds as LLVM encodes them

---
 llvm-mapper/src/record/comdat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/comdat.rs b/llvm-mapper/src/record/comdat.rs
index 38a97ab..41bd89f 100644
--- a/llvm-mapper/src/record/comdat.rs
+++ b/llvm-mapper/src/record/comdat.rs
@@ -43,7 +43,7 @@ pub enum ComdatError {
 #[repr(u64)]
 pub enum SelectionKind {
     /// The linker may choose any COMDAT.
-    Any,
+    Any = 1,
     /// The data referenced by the COMDAT must be the same.
     ExactMatch,
     /// The linker will choose the largest COMDAT.
-- 
2.43.0


From 7000f6800b96aafb51383e493ef2f000b48044b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 27/47] fix: support the nosanitize_bounds attribute

---
 llvm-mapper/src/block/attributes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index ad39a9c..72b33c4 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -206,6 +206,8 @@ pub enum EnumAttribute {
     NoProfile = AttributeId::NoProfile as u64,
     /// `swift_async`
     SwiftAsync = AttributeId::SwiftAsync as u64,
+    /// `nosanitize_bounds`
+    NoSanitizeBounds = AttributeId::NoSanitizeBounds as u64,
     /// `nosanitize_coverage`
     NoSanitizeCoverage = AttributeId::NoSanitizeCoverage as u64,
     /// `elementtype`
-- 
2.43.0


From e3f54f13d7aa0eebad5207944f449d83a090e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 28/47] fix: alignment attributes are recorded in bytes

---
 llvm-mapper/src/block/attributes.rs | 47 +++++++++++------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 72b33c4..e4fba34 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -4,7 +4,7 @@ use std::convert::{TryFrom, TryInto};
 
 use hashbrown::HashMap;
 use llvm_support::bitcodes::AttributeCode;
-use llvm_support::{AttributeId, AttributeKind, MaybeAlign};
+use llvm_support::{Align, AttributeId, AttributeKind, MaybeAlign};
 use num_enum::{TryFromPrimitive, TryFromPrimitiveError};
 use thiserror::Error;
 
@@ -272,6 +272,21 @@ pub enum IntAttribute {
     MemoryKind(u64),
 }
 
+impl IntAttribute {
+    /// Decode the value of an alignment attribute. Unlike other alignments in bitcode,
+    /// these are recorded in bytes.
+    fn alignment(key: AttributeId, value: u64) -> Result<MaybeAlign, AttributeError> {
+        let encoded = match value {
+            0 => Ok(0),
+            value => Align::from_byte_align(value).map(|align| align.shift() + 1),
+        };
+
+        encoded
+            .and_then(MaybeAlign::try_from)
+            .map_err(|_| AttributeError::AttributeMalformed("invalid alignment", key))
+    }
+}
+
 impl TryFrom<(AttributeId, u64)> for IntAttribute {
     type Error = AttributeError;
 
@@ -287,34 +302,8 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
         }
 
         Ok(match key {
-            AttributeId::Alignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::Alignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
-            }
-            AttributeId::StackAlignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::StackAlignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
-            }
+            AttributeId::Alignment => IntAttribute::Alignment(Self::alignment(key, value)?),
+            AttributeId::StackAlignment => IntAttribute::StackAlignment(Self::alignment(key, value)?),
             AttributeId::Dereferenceable => IntAttribute::Dereferenceable(value),
             AttributeId::DereferenceableOrNull => IntAttribute::DereferenceableOrNull(value),
             AttributeId::AllocSize => {
-- 
2.43.0


From 23cfd4ce5d58e670ba41da959c6340ff43182ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 29/47] fix: decode vscale_range in its documented order

---
 llvm-mapper/src/block/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index e4fba34..8e36398 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -332,7 +332,7 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
                     max => max,
                 };
 
-                IntAttribute::VScaleRange(max, min)
+                IntAttribute::VScaleRange(min, max)
             }
             AttributeId::UwTable => {
                 IntAttribute::UwTable(UwTableVariant::try_from(value).map_err(|_| {
-- 
2.43.0


From a7422a7c98905cd3f7e00f561b47d17acbe42956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 30/47] fix: reject string attributes that are not terminated

---
 llvm-mapper/src/block/attributes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 8e36398..78ac722 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -384,7 +384,10 @@ impl Attribute {
         macro_rules! take_string {
             // NOTE(ww): Weird double-brace to make sure the macro expands as a full expression.
             () => {{
-                let str_bytes = record.fields()[start + fieldcount..]
+                let str_bytes = record
+                    .fields()
+                    .get(start + fieldcount..)
+                    .ok_or(AttributeError::TooShort)?
                     .iter()
                     .take_while(|f| **f != 0)
                     .map(|f| u8::try_from(*f))
-- 
2.43.0


From 2fce30e3f997ffd0755aed13cd324a99eecf5b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 31/47] fix: old attribute entries are an error rather than a
 panic

---
 llvm-mapper/src/block/attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 78ac722..141ec8c 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -469,7 +469,9 @@ impl TryFrom<(&'_ Block, &'_ PartialMapCtx)> for Attributes {
 
             match code {
                 AttributeCode::EntryOld => {
-                    unimplemented!();
+                    return Err(
+                        MapError::Unsupported("old attribute entry records".into()).into()
+                    );
                 }
                 AttributeCode::Entry => {
                     let mut groups = vec![];
-- 
2.43.0


From ec9a7fe0d6a86e9a885e0f9b7f3b56622400c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 32/47] fix: do not allocate basic blocks based on an untrusted
 count

---
 llvm-mapper/src/block/function/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/block/function/mod.rs b/llvm-mapper/src/block/function/mod.rs
index 605ede3..55e3d4b 100644
--- a/llvm-mapper/src/block/function/mod.rs
+++ b/llvm-mapper/src/block/function/mod.rs
@@ -58,7 +58,7 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
         // TODO: Handle each `MODULE_CODE_FUNCTION`'s sub-blocks.
 
         // A function block should have exactly one DECLAREBLOCKS record.
-        let nblocks = {
+        let _nblocks = {
             let declareblocks = block
                 .records
                 .exactly_one(FunctionCode::DeclareBlocks)
@@ -72,7 +72,8 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
 
         // Like the type table, we need a little bit of a state machine to
         // construct each function's basic blocks and constituent instructions.
-        let mut _bbs: Vec<BasicBlock> = Vec::with_capacity(nblocks as usize);
+        // NOTE: We don't preallocate here, since the block count can't be trusted.
+        let mut _bbs: Vec<BasicBlock> = vec![];
         let mut _bb = BasicBlock::default();
 
         for record in block.records.into_iter() {
-- 
2.43.0


From d56802e86829f1dbbc324b2921de04e700e87128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 33/47] fix: unsupported function blocks are an error rather
 than a panic

---
 llvm-mapper/src/block/function/mod.rs | 94 ++++++++++++++-------------
 1 file changed, 50 insertions(+), 44 deletions(-)

diff --git a/llvm-mapper/src/block/function/mod.rs b/llvm-mapper/src/block/function/mod.rs
index 55e3d4b..d4e2a85 100644
--- a/llvm-mapper/src/block/function/mod.rs
+++ b/llvm-mapper/src/block/function/mod.rs
@@ -104,6 +104,12 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                 };
             }
 
+            macro_rules! unsupported {
+                () => {
+                    FunctionError::Map(MapError::Unsupported(format!("function code {code:?}")))
+                };
+            }
+
             // Function codes fall into a few general categories:
             //
             // * State machine management (`DECLAREBLOCKS`)
@@ -117,11 +123,11 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                 FunctionCode::DeclareBlocks => continue,
 
                 // Operand bundles.
-                FunctionCode::OperandBundle => unimplemented!(),
+                FunctionCode::OperandBundle => return Err(unsupported!()),
 
                 // Debug state.
-                FunctionCode::DebugLoc => unimplemented!(),
-                FunctionCode::DebugLocAgain => unimplemented!(),
+                FunctionCode::DebugLoc => return Err(unsupported!()),
+                FunctionCode::DebugLocAgain => return Err(unsupported!()),
 
                 // The big one: all instructions.
                 FunctionCode::InstBinop => {
@@ -134,18 +140,18 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opval, opty, destty, castopc]
                     let [_opval, _opty, _destty, _castopc] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstGepOld => todo!(),
-                FunctionCode::InstSelect => todo!(),
-                FunctionCode::InstExtractelt => todo!(),
-                FunctionCode::InstInsertelt => todo!(),
-                FunctionCode::InstShufflevec => todo!(),
-                FunctionCode::InstCmp => todo!(),
-                FunctionCode::InstRet => todo!(),
-                FunctionCode::InstBr => todo!(),
-                FunctionCode::InstSwitch => todo!(),
-                FunctionCode::InstInvoke => todo!(),
-                FunctionCode::InstUnreachable => todo!(),
-                FunctionCode::InstPhi => todo!(),
+                FunctionCode::InstGepOld => return Err(unsupported!()),
+                FunctionCode::InstSelect => return Err(unsupported!()),
+                FunctionCode::InstExtractelt => return Err(unsupported!()),
+                FunctionCode::InstInsertelt => return Err(unsupported!()),
+                FunctionCode::InstShufflevec => return Err(unsupported!()),
+                FunctionCode::InstCmp => return Err(unsupported!()),
+                FunctionCode::InstRet => return Err(unsupported!()),
+                FunctionCode::InstBr => return Err(unsupported!()),
+                FunctionCode::InstSwitch => return Err(unsupported!()),
+                FunctionCode::InstInvoke => return Err(unsupported!()),
+                FunctionCode::InstUnreachable => return Err(unsupported!()),
+                FunctionCode::InstPhi => return Err(unsupported!()),
                 FunctionCode::InstAlloca => {
                     // [instty, opty, op, align]
                     let [_instty, _opty, _op, _align] = unpack_fields!(4)?;
@@ -154,49 +160,49 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opty, op, align, vol]
                     let [_opty, _op, _align, _vol] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstVaarg => todo!(),
-                FunctionCode::InstStoreOld => todo!(),
-                FunctionCode::InstExtractval => todo!(),
-                FunctionCode::InstInsertval => todo!(),
-                FunctionCode::InstCmp2 => todo!(),
-                FunctionCode::InstVselect => todo!(),
-                FunctionCode::InstInboundsGepOld => todo!(),
-                FunctionCode::InstIndirectbr => todo!(),
-                FunctionCode::InstCall => todo!(),
-                FunctionCode::InstFence => todo!(),
-                FunctionCode::InstCmpxchgOld => todo!(),
-                FunctionCode::InstAtomicrmwOld => todo!(),
-                FunctionCode::InstResume => todo!(),
-                FunctionCode::InstLandingpadOld => todo!(),
-                FunctionCode::InstLoadatomic => todo!(),
-                FunctionCode::InstStoreatomicOld => todo!(),
-                FunctionCode::InstGep => todo!(),
+                FunctionCode::InstVaarg => return Err(unsupported!()),
+                FunctionCode::InstStoreOld => return Err(unsupported!()),
+                FunctionCode::InstExtractval => return Err(unsupported!()),
+                FunctionCode::InstInsertval => return Err(unsupported!()),
+                FunctionCode::InstCmp2 => return Err(unsupported!()),
+                FunctionCode::InstVselect => return Err(unsupported!()),
+                FunctionCode::InstInboundsGepOld => return Err(unsupported!()),
+                FunctionCode::InstIndirectbr => return Err(unsupported!()),
+                FunctionCode::InstCall => return Err(unsupported!()),
+                FunctionCode::InstFence => return Err(unsupported!()),
+                FunctionCode::InstCmpxchgOld => return Err(unsupported!()),
+                FunctionCode::InstAtomicrmwOld => return Err(unsupported!()),
+                FunctionCode::InstResume => return Err(unsupported!()),
+                FunctionCode::InstLandingpadOld => return Err(unsupported!()),
+                FunctionCode::InstLoadatomic => return Err(unsupported!()),
+                FunctionCode::InstStoreatomicOld => return Err(unsupported!()),
+                FunctionCode::InstGep => return Err(unsupported!()),
                 FunctionCode::InstStore => {
                     // [ptrty, ptr, valty, val, align, vol]
                     let [_ptrty, _ptr, _valty, _val] = unpack_fields!(4)?;
 
                     // NOTE: Two more optional fields: align and vol.
                 }
-                FunctionCode::InstStoreatomic => todo!(),
-                FunctionCode::InstCmpxchg => todo!(),
-                FunctionCode::InstLandingpad => todo!(),
-                FunctionCode::InstCleanupret => todo!(),
-                FunctionCode::InstCatchret => todo!(),
-                FunctionCode::InstCatchpad => todo!(),
-                FunctionCode::InstCleanuppad => todo!(),
-                FunctionCode::InstCatchswitch => todo!(),
+                FunctionCode::InstStoreatomic => return Err(unsupported!()),
+                FunctionCode::InstCmpxchg => return Err(unsupported!()),
+                FunctionCode::InstLandingpad => return Err(unsupported!()),
+                FunctionCode::InstCleanupret => return Err(unsupported!()),
+                FunctionCode::InstCatchret => return Err(unsupported!()),
+                FunctionCode::InstCatchpad => return Err(unsupported!()),
+                FunctionCode::InstCleanuppad => return Err(unsupported!()),
+                FunctionCode::InstCatchswitch => return Err(unsupported!()),
                 FunctionCode::InstUnop => {
                     // [opval, ty, opcode]
                     let [_opval, ty, opcode] = unpack_fields!(3)?;
                     let _ty = get_type!(ty)?;
                     let _opcode = UnaryOp::try_from(opcode)?;
                 }
-                FunctionCode::Instcallbr => todo!(),
-                FunctionCode::InstFreeze => todo!(),
-                FunctionCode::InstAtomicrmw => todo!(),
+                FunctionCode::Instcallbr => return Err(unsupported!()),
+                FunctionCode::InstFreeze => return Err(unsupported!()),
+                FunctionCode::InstAtomicrmw => return Err(unsupported!()),
             }
         }
 
-        unimplemented!()
+        Err(MapError::Unsupported("function blocks".into()).into())
     }
 }
-- 
2.43.0


From a673ced0f277889909738483624af1ae9b20de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 34/47] fix: decode binary operations on integer and
 floating-point types

---
 llvm-support/src/opcode.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/llvm-support/src/opcode.rs b/llvm-support/src/opcode.rs
index 694f31d..1d09f9d 100644
--- a/llvm-support/src/opcode.rs
+++ b/llvm-support/src/opcode.rs
@@ -155,7 +155,7 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
         let is_fp = ty.is_floating_or_floating_vector();
 
         // Binary operations are only valid on integer/fp types or vectors thereof.
-        if !is_fp || !ty.is_integer_or_integer_vector() {
+        if !is_fp && !ty.is_integer_or_integer_vector() {
             return Err(BinaryOpError::InvalidType(ty.clone()));
         }
 
@@ -177,13 +177,13 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
             (BinaryOpcode::SRem, false) => BinaryOp::SRem,
             (BinaryOpcode::SRem, true) => BinaryOp::FRem,
             // The rest are all integer-type only.
-            (BinaryOpcode::Shl, true) => BinaryOp::Shl,
-            (BinaryOpcode::LShr, true) => BinaryOp::LShr,
-            (BinaryOpcode::AShr, true) => BinaryOp::AShr,
-            (BinaryOpcode::And, true) => BinaryOp::And,
-            (BinaryOpcode::Or, true) => BinaryOp::Or,
-            (BinaryOpcode::Xor, true) => BinaryOp::Xor,
-            (_, false) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
+            (BinaryOpcode::Shl, false) => BinaryOp::Shl,
+            (BinaryOpcode::LShr, false) => BinaryOp::LShr,
+            (BinaryOpcode::AShr, false) => BinaryOp::AShr,
+            (BinaryOpcode::And, false) => BinaryOp::And,
+            (BinaryOpcode::Or, false) => BinaryOp::Or,
+            (BinaryOpcode::Xor, false) => BinaryOp::Xor,
+            (_, true) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
         })
     }
 }
-- 
2.43.0


From edf75c204432e0b354ebaa831ea1a4198cf3a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 35/47] fix: use LLVM's default type alignments

---
 llvm-support/src/align.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 163c2ba..c357693 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -260,6 +260,8 @@ impl AlignedType {
     make_const_aligned!(Integer, 16);
     make_const_aligned!(Integer, 32);
     make_const_aligned!(Integer, 64);
+    make_const_aligned!(Vector, 64);
+    make_const_aligned!(Vector, 128);
 }
 
 /// Errors that can occur when constructing a [`TypeAlignSpec`](TypeAlignSpec)
@@ -469,7 +471,7 @@ impl Default for TypeAlignSpecs {
         // into an infallible constant.
         #[allow(clippy::unwrap_used)]
         Self(vec![
-            TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN8, Align::ALIGN64).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT16, Align::ALIGN16, Align::ALIGN16).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT32, Align::ALIGN32, Align::ALIGN32).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT64, Align::ALIGN64, Align::ALIGN64).unwrap(),
@@ -478,7 +480,9 @@ impl Default for TypeAlignSpecs {
             TypeAlignSpec::new(AlignedType::INTEGER8, Align::ALIGN8, Align::ALIGN8).unwrap(),
             TypeAlignSpec::new(AlignedType::INTEGER16, Align::ALIGN16, Align::ALIGN16).unwrap(),
             TypeAlignSpec::new(AlignedType::INTEGER32, Align::ALIGN32, Align::ALIGN32).unwrap(),
-            TypeAlignSpec::new(AlignedType::INTEGER64, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::INTEGER64, Align::ALIGN32, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::VECTOR64, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::VECTOR128, Align::ALIGN128, Align::ALIGN128).unwrap(),
         ])
     }
 }
-- 
2.43.0


From db456b911e156af52c8ac4632d95f61f816b5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 36/47] fix: accept zero as an aggregate alignment

---
 llvm-support/src/align.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index c357693..d269bff 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -367,17 +367,24 @@ impl FromStr for TypeAlignSpec {
                         parts.len()
                     )));
                 }
+                // Unlike every other type, aggregates can have an alignment of zero. That's
+                // the same thing as not requiring any particular alignment.
+                let parse_align = |bits: u64| match bits {
+                    0 => Ok(Align::ALIGN8),
+                    bits => Align::from_bit_align(bits).map_err(AlignSpecError::from),
+                };
+
                 let abi = parts[0]
                     .parse::<u64>()
                     .map_err(|e| AlignSpecError::Parse(e.to_string()))
-                    .and_then(|a| Align::from_bit_align(a).map_err(Into::into))?;
+                    .and_then(parse_align)?;
 
                 let pref = parts
                     .get(1)
                     .map(|p| {
                         p.parse::<u64>()
                             .map_err(AlignSpecError::from)
-                            .and_then(|a| Align::from_bit_align(a).map_err(Into::into))
+                            .and_then(parse_align)
                     })
                     .unwrap_or(Ok(abi))?;
 
-- 
2.43.0


From d7b58b186d6d3755153b91949f14c74374a8fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 37/47] fix: apply the aggregate alignment in data layouts

---
 llvm-mapper/src/record/datalayout.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index ec771eb..bfe44a0 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -5,7 +5,7 @@ use std::num::ParseIntError;
 use std::str::FromStr;
 
 use llvm_support::{
-    AddressSpace, AddressSpaceError, Align, AlignError, AlignSpecError, Endian,
+    AddressSpace, AddressSpaceError, Align, AlignError, AlignSpecError, AlignedType, Endian,
     FunctionPointerAlign, Mangling, PointerAlignSpec, PointerAlignSpecs, TypeAlignSpec,
     TypeAlignSpecs,
 };
@@ -138,6 +138,9 @@ impl FromStr for DataLayout {
                 'i' | 'v' | 'f' | 'a' => {
                     // Pass the entire spec in here, since we need the spec identifier as well.
                     let align_spec = spec.parse::<TypeAlignSpec>()?;
+                    if align_spec.aligned_type == AlignedType::Aggregate {
+                        datalayout.aggregate_alignment = align_spec.abi_alignment;
+                    }
                     datalayout.type_alignments.update(align_spec);
                 }
                 'F' => match body.chars().next() {
-- 
2.43.0


From 3b6cf802dc781086bb81c60d7db5c06f133b8a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 38/47] fix: enforce the preferred alignment of parsed pointer
 specs

---
 llvm-support/src/align.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index d269bff..e237501 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -655,13 +655,7 @@ impl FromStr for PointerAlignSpec {
             .map(|idx| idx.parse::<u64>())
             .unwrap_or(Ok(pointer_size))?;
 
-        Ok(Self {
-            address_space: address_space,
-            abi_alignment: abi,
-            preferred_alignment: pref,
-            pointer_size: pointer_size,
-            index_size: index_size,
-        })
+        Self::new(address_space, abi, pref, pointer_size, index_size)
     }
 }
 
-- 
2.43.0


From 1fad7e452265fb9c53dcd13ee3853235567effd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 39/47] fix: keep one pointer alignment spec per address space

---
 llvm-support/src/align.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index e237501..c46c78c 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -725,17 +725,10 @@ impl PointerAlignSpecs {
         let pos = self.0.iter().rposition(|&other| other <= spec);
         match pos {
             // If we have a match, then we need to either insert or update
-            // depending on whether our match is the same spec as us.
+            // depending on whether our match is for the same address space as us.
             // Panic safety: `pos` is a valid index returned above.
-            Some(pos) => match self.0[pos] == spec {
-                true => {
-                    // Unwrap safety: `pos` is a valid index returned above.
-                    #[allow(clippy::unwrap_used)]
-                    let other = self.0.get_mut(pos).unwrap();
-
-                    other.abi_alignment = spec.abi_alignment;
-                    other.preferred_alignment = spec.preferred_alignment;
-                }
+            Some(pos) => match self.0[pos].address_space == spec.address_space {
+                true => self.0[pos] = spec,
                 false => {
                     self.0.insert(pos + 1, spec);
                 }
-- 
2.43.0


From ab0340ad5cdb7da170cd3d3d6bd2d53fa10ef7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 40/47] fix: do not panic on alignment specs with a bad first
 character

---
 llvm-support/src/align.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index c46c78c..bcdba1e 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -340,6 +340,12 @@ impl FromStr for TypeAlignSpec {
             ));
         }
 
+        if !value.is_ascii() {
+            return Err(AlignSpecError::Parse(
+                "type alignment contains non-ASCII characters".into(),
+            ));
+        }
+
         // Unwrap safety: we check for a nonempty string above.
         #[allow(clippy::unwrap_used)]
         let id = value.chars().next().unwrap();
@@ -622,7 +628,10 @@ impl FromStr for PointerAlignSpec {
             ));
         }
 
-        let parts: Vec<&str> = value[1..].split(':').collect();
+        let body = value.strip_prefix('p').ok_or_else(|| {
+            AlignSpecError::Parse("pointer align spec doesn't begin with 'p'".into())
+        })?;
+        let parts: Vec<&str> = body.split(':').collect();
 
         // We expect no less than 3 parts: `p[n]`, `size`, and `abi`, with
         // `pref` and `idx` being optional.
-- 
2.43.0


From 8a7dfc3ca23a12ccdd0d1413c87d4cae1762b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 41/47] fix: report zero type widths as such

---
 llvm-support/src/align.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index bcdba1e..a7cfe29 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -181,6 +181,7 @@ impl TryFrom<u32> for AlignedTypeWidth {
     fn try_from(value: u32) -> Result<Self, Self::Error> {
         match value > 0 && value <= AlignedTypeWidth::MAX {
             true => Ok(AlignedTypeWidth(value)),
+            false if value == 0 => Err(AlignedTypeWidthError::Zero),
             false => Err(AlignedTypeWidthError::TooBig(value)),
         }
     }
-- 
2.43.0


From 46aa843ad922c231ed998b1232134d85c8e22fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 42/47] fix: reject data layout specs with trailing or stray
 characters

---
 llvm-mapper/src/record/datalayout.rs | 22 ++++++++++++++++++++--
 llvm-support/src/align.rs            | 15 +++++++++++----
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index bfe44a0..d893fb5 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -115,6 +115,12 @@ impl FromStr for DataLayout {
             // Unwrap safety: we check for a nonempty spec above.
             #[allow(clippy::unwrap_used)]
             match spec.chars().next().unwrap() {
+                'e' | 'E' if !body.is_empty() => {
+                    return Err(DataLayoutError::BadSpecParse(format!(
+                        "trailing characters after endianness: {}",
+                        body
+                    )))
+                }
                 'e' => datalayout.endianness = Endian::Little,
                 'E' => datalayout.endianness = Endian::Big,
                 'S' => {
@@ -171,7 +177,7 @@ impl FromStr for DataLayout {
                 'm' => {
                     // The mangling spec is `m:X`, where `X` is the mangling kind.
                     // We've already parsed `m`, so we expect exactly two characters.
-                    let mut mangling = body.chars().take(2);
+                    let mut mangling = body.chars();
                     match mangling.next() {
                         Some(':') => {}
                         Some(u) => {
@@ -208,6 +214,12 @@ impl FromStr for DataLayout {
                         }
                     };
 
+                    if mangling.next().is_some() {
+                        return Err(DataLayoutError::BadSpecParse(
+                            "trailing characters after mangling kind".into(),
+                        ));
+                    }
+
                     datalayout.mangling = Some(kind);
                 }
                 'n' => {
@@ -235,7 +247,13 @@ impl FromStr for DataLayout {
                                             }
                                         })
                                 })
-                                .collect::<Result<_, _>>()?
+                                .collect::<Result<_, _>>()?;
+
+                            if !body.starts_with("i:") {
+                                return Err(DataLayoutError::BadSpecParse(
+                                    "bad separator for non-integral address spaces".into(),
+                                ));
+                            }
                         }
                         Some(_) => {
                             datalayout.native_integer_widths = body
diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index a7cfe29..674d814 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -368,9 +368,9 @@ impl FromStr for TypeAlignSpec {
                     None => return Err(AlignSpecError::Parse("empty aggregate specifier".into())),
                 };
 
-                if parts.is_empty() {
+                if parts.is_empty() || parts.len() > 2 {
                     return Err(AlignSpecError::Parse(format!(
-                        "wrong number of aggregate alignment parameters: expected at least 1, got {}",
+                        "wrong number of aggregate alignment parameters: expected 1 or 2, got {}",
                         parts.len()
                     )));
                 }
@@ -400,9 +400,9 @@ impl FromStr for TypeAlignSpec {
             // All other cases take at least two parameters, and an optional
             // third for a preferred alignment.
             id => {
-                if parts.len() < 2 {
+                if parts.len() < 2 || parts.len() > 3 {
                     return Err(AlignSpecError::Parse(format!(
-                        "wrong number of alignment parameters for spec '{}': expected at least 2, got {}",
+                        "wrong number of alignment parameters for spec '{}': expected 2 or 3, got {}",
                         id,
                         parts.len()
                     )));
@@ -643,6 +643,13 @@ impl FromStr for PointerAlignSpec {
             )));
         }
 
+        if parts.len() > 5 {
+            return Err(AlignSpecError::Parse(format!(
+                "pointer align spec has too many parts ({}, expected at most 5)",
+                parts.len()
+            )));
+        }
+
         let address_space = match parts[0].is_empty() {
             true => AddressSpace::default(),
             false => parts[0].parse::<u32>()?.try_into()?,
-- 
2.43.0


From d1cb02352b53f9289b5a0911f602acdc0ef48ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 43/47] fix: reject native integer widths of zero

---
 llvm-mapper/src/record/datalayout.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index d893fb5..c0b7657 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -260,6 +260,12 @@ impl FromStr for DataLayout {
                                 .split(':')
                                 .map(|s| s.parse::<u32>())
                                 .collect::<Result<_, _>>()?;
+
+                            if datalayout.native_integer_widths.contains(&0) {
+                                return Err(DataLayoutError::BadSpecParse(
+                                    "native integer widths cannot be zero".into(),
+                                ));
+                            }
                         }
                         None => {
                             return Err(DataLayoutError::BadSpecParse(
-- 
2.43.0


From 41c29d8af837ac8cc529bffc21e398fd0172218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 44/47] fix: reject empty vector types

---
 llvm-support/src/ty.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/ty.rs b/llvm-support/src/ty.rs
index 395f5ce..c86e027 100644
--- a/llvm-support/src/ty.rs
+++ b/llvm-support/src/ty.rs
@@ -458,6 +458,9 @@ impl ArrayType {
 /// Errors that can occur when constructing a [`VectorType`](VectorType).
 #[derive(Debug, Error)]
 pub enum VectorTypeError {
+    /// The vector doesn't have any elements.
+    #[error("vector types cannot be empty")]
+    Empty,
     /// The requested element type is invalid.
     #[error("invalid vector element type: {0:?}")]
     BadElement(Type),
@@ -477,7 +480,9 @@ pub struct VectorType {
 impl VectorType {
     /// Create a new `VectorType`.
     pub fn new(num_elements: u64, element_type: Type) -> Result<Self, VectorTypeError> {
-        if element_type.is_vector_element() {
+        if num_elements == 0 {
+            Err(VectorTypeError::Empty)
+        } else if element_type.is_vector_element() {
             Ok(Self {
                 num_elements,
                 element_type: Box::new(element_type),
-- 
2.43.0


From 809fba9fe84fbbe703254dca349b0a36747dea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 45/47] verif: observation points behind cfg(mollusc_verif)

---
 llvm-mapper/src/block/attributes.rs |  8 ++++
 llvm-mapper/src/block/module.rs     |  3 ++
 llvm-mapper/src/lib.rs              |  3 ++
 llvm-mapper/src/verif.rs            | 69 +++++++++++++++++++++++++++++
 llvm-support/src/align.rs           | 16 +++++++
 llvm-support/src/lib.rs             |  1 +
 6 files changed, 100 insertions(+)
 create mode 100644 llvm-mapper/src/verif.rs

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 141ec8c..bbebb42 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -448,6 +448,14 @@ impl Attribute {
 #[derive(Debug)]
 pub struct AttributeEntry(Vec<AttributeGroup>);
 
+#[cfg(mollusc_verif)]
+impl AttributeEntry {
+    /// Returns the groups in this entry.
+    pub fn verif_groups(&self) -> &[AttributeGroup] {
+        &self.0
+    }
+}
+
 /// Maps all attributes in an IR module.
 #[derive(Debug, Default)]
 pub struct Attributes(Vec<AttributeEntry>);
diff --git a/llvm-mapper/src/block/module.rs b/llvm-mapper/src/block/module.rs
index 40dfd8f..b07e4d3 100644
--- a/llvm-mapper/src/block/module.rs
+++ b/llvm-mapper/src/block/module.rs
@@ -224,6 +224,9 @@ impl TryFrom<(&'_ Block, &'_ mut PartialMapCtx)> for Module {
 
         log::debug!("aliases: {:?}", aliases);
 
+        #[cfg(mollusc_verif)]
+        crate::verif::observe(&ctx, &function_records, &aliases);
+
         Ok(Self {
             triple,
             asm,
diff --git a/llvm-mapper/src/lib.rs b/llvm-mapper/src/lib.rs
index 32ce9e2..396ddea 100644
--- a/llvm-mapper/src/lib.rs
+++ b/llvm-mapper/src/lib.rs
@@ -5,11 +5,14 @@
 #![deny(missing_docs)]
 #![allow(clippy::redundant_field_names)]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)]
 
 pub mod block;
 pub mod error;
 pub mod map;
 pub mod record;
 pub mod unroll;
+#[cfg(mollusc_verif)]
+pub mod verif;
 
 pub use unroll::Bitcode;
diff --git a/llvm-mapper/src/verif.rs b/llvm-mapper/src/verif.rs
new file mode 100644
index 0000000..9f9aa75
--- /dev/null
+++ b/llvm-mapper/src/verif.rs
@@ -0,0 +1,69 @@
+//! Observation points for verification harnesses.
+//!
+//! Most of what a module's records and blocks are mapped into isn't exposed by this crate's
+//! public API (yet). This module makes it observable, without changing it, and only exists
+//! when building with `--cfg mollusc_verif`.
+
+use std::cell::RefCell;
+
+use llvm_support::Type;
+
+use crate::block::{AttributeEntry, AttributeGroup};
+use crate::map::MapCtx;
+use crate::record::{Alias, Function};
+
+/// A view of a module that has just been mapped.
+#[allow(missing_debug_implementations)]
+pub struct View<'ctx> {
+    /// The module's mapping context.
+    pub ctx: &'ctx MapCtx<'ctx>,
+    /// The module's function records.
+    pub functions: &'ctx [Function<'ctx>],
+    /// The module's alias records.
+    pub aliases: &'ctx [Alias<'ctx>],
+}
+
+impl View<'_> {
+    /// Returns the given entry of the type table, if present.
+    pub fn ty(&self, idx: u64) -> Option<&Type> {
+        self.ctx.type_table.get(idx)
+    }
+
+    /// Returns the attribute groups in the given attribute list, if present.
+    pub fn attributes(&self, idx: u64) -> Option<&[AttributeGroup]> {
+        self.ctx
+            .attributes
+            .get(idx)
+            .map(AttributeEntry::verif_groups)
+    }
+
+    /// Returns the attribute group with the given ID, if present.
+    pub fn attribute_group(&self, id: u32) -> Option<&AttributeGroup> {
+        self.ctx.attribute_groups.get(id)
+    }
+}
+
+/// A callback that's given a view of each mapped module.
+pub type Observer = Box<dyn FnMut(&View<'_>)>;
+
+thread_local! {
+    static OBSERVER: RefCell<Option<Observer>> = RefCell::new(None);
+}
+
+/// Sets (or removes) the current thread's observer.
+pub fn set_observer(observer: Option<Observer>) {
+    OBSERVER.with(|o| *o.borrow_mut() = observer);
+}
+
+/// Shows a mapped module to the current thread's observer, if there is one.
+pub(crate) fn observe(ctx: &MapCtx<'_>, functions: &[Function<'_>], aliases: &[Alias<'_>]) {
+    OBSERVER.with(|o| {
+        if let Some(observer) = o.borrow_mut().as_mut() {
+            observer(&View {
+                ctx,
+                functions,
+                aliases,
+            });
+        }
+    });
+}
diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 674d814..df2aa08 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -501,6 +501,14 @@ impl Default for TypeAlignSpecs {
     }
 }
 
+#[cfg(mollusc_verif)]
+impl TypeAlignSpecs {
+    /// Returns the entries of this collection.
+    pub fn verif_entries(&self) -> impl Iterator<Item = TypeAlignSpec> + '_ {
+        self.0.iter().copied()
+    }
+}
+
 impl TypeAlignSpecs {
     /// Update this list of type alignment specifications by inserting the given specification
     /// at the correct location, **or** rewriting an already present specification.
@@ -733,6 +741,14 @@ impl Default for PointerAlignSpecs {
     }
 }
 
+#[cfg(mollusc_verif)]
+impl PointerAlignSpecs {
+    /// Returns the entries of this collection.
+    pub fn verif_entries(&self) -> impl Iterator<Item = PointerAlignSpec> + '_ {
+        self.0.iter().copied()
+    }
+}
+
 impl PointerAlignSpecs {
     /// Update this list of pointer alignment specifications by inserting the given specification
     /// at the correct location, **or** rewriting an already present specification.
diff --git a/llvm-support/src/lib.rs b/llvm-support/src/lib.rs
index 8d85f03..3a2c6f6 100644
--- a/llvm-support/src/lib.rs
+++ b/llvm-support/src/lib.rs
@@ -5,6 +5,7 @@
 #![deny(missing_docs)]
 #![allow(clippy::redundant_field_names)]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)]
 
 pub mod align;
 pub mod attribute;
-- 
2.43.0


From c579f7307f13b3520dfde1548218d0fae4b8fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 46/47] fix: decode sign-extended characters in strings

---
 llvm-mapper/src/block/attributes.rs |  3 ++-
 llvm-mapper/src/record/mod.rs       | 13 +++++++++++++
 llvm-mapper/src/unroll.rs           |  4 ++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index bbebb42..3ef7e84 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -9,6 +9,7 @@ use num_enum::{TryFromPrimitive, TryFromPrimitiveError};
 use thiserror::Error;
 
 use crate::map::{MapError, PartialMapCtx};
+use crate::record::string_char;
 use crate::unroll::{Block, Record};
 
 /// Errors that can occur when mapping attribute blocks.
@@ -390,7 +391,7 @@ impl Attribute {
                     .ok_or(AttributeError::TooShort)?
                     .iter()
                     .take_while(|f| **f != 0)
-                    .map(|f| u8::try_from(*f))
+                    .map(|f| string_char(*f))
                     .collect::<Result<Vec<_>, _>>()
                     .map_err(|_| AttributeError::BadString)?;
 
diff --git a/llvm-mapper/src/record/mod.rs b/llvm-mapper/src/record/mod.rs
index a9aa077..ba73a0e 100644
--- a/llvm-mapper/src/record/mod.rs
+++ b/llvm-mapper/src/record/mod.rs
@@ -9,6 +9,7 @@ pub mod comdat;
 pub mod datalayout;
 pub mod function;
 
+use std::convert::TryFrom;
 use std::num::TryFromIntError;
 use std::string::FromUtf8Error;
 
@@ -35,6 +36,18 @@ pub enum RecordStringError {
     BadEncoding(#[from] FromUtf8Error),
 }
 
+/// Converts a record field into a single character (i.e., byte) of a string.
+///
+/// LLVM's writer goes through `char`, so characters outside of ASCII can be sign-extended to
+/// either 32 or 64 bits.
+pub(crate) fn string_char(field: u64) -> Result<u8, TryFromIntError> {
+    u8::try_from(field).or_else(|err| {
+        let extended = u32::try_from(field).map_or(field as i64, |f| f as i32 as i64);
+
+        i8::try_from(extended).map(|c| c as u8).map_err(|_| err)
+    })
+}
+
 /// Potential errors when trying to extract a blob from a record.
 #[non_exhaustive]
 #[derive(Debug, Error)]
diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 6537618..ff010a9 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -13,7 +13,7 @@ use thiserror::Error;
 use crate::block::{BlockId, BlockMapError, Identification, Module, Strtab, Symtab};
 use crate::error::Error;
 use crate::map::PartialMapCtx;
-use crate::record::{RecordBlobError, RecordStringError};
+use crate::record::{string_char, RecordBlobError, RecordStringError};
 
 /// The maximum depth of nested blocks that we're willing to unroll. This is far deeper than
 /// anything that LLVM emits, and protects us from exhausting the stack on a malformed bitstream.
@@ -45,7 +45,7 @@ impl Record {
         // Each individual field in our string must fit into a byte.
         let raw = self.0.fields[idx..]
             .iter()
-            .map(|f| u8::try_from(*f))
+            .map(|f| string_char(*f))
             .collect::<Result<Vec<_>, _>>()?;
 
         // Finally, the buffer itself must decode correctly.
-- 
2.43.0


From 2f59ea4c874601fafef5cdf53d51a18ff8d5d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 47/47] fix: let each BLOCKINFO block replace the previous one

---
 llvm-bitstream/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 8f5f546..50aae10 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -242,6 +242,9 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         // If we've just entered a BLOCKINFO block, return `None` to avoid
         // surfacing parse details to the `advance()` API.
         if self.scope().is_blockinfo() {
+            // Each BLOCKINFO block replaces the previous one, rather than adding to it: streams
+            // with more than one module have a BLOCKINFO block for each of them.
+            self.blockinfo.clear();
             return Ok(None);
         }
 
-- 
2.43.0

