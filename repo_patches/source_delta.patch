From cf8d6c34577111b6ea7d9e1becd148a2f9e45266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 01/14] fix: dispatch SWITCH records to visit_switch

They fell through to visit_unknown, and since they have no body that
failed with an EOF error.
---
 src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.rs b/src/parse.rs
index 13c8e56..edf0a28 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -580,6 +580,7 @@ where
             PERF_RECORD_AUX => visitor.visit_aux(p.parse()?, metadata),
             PERF_RECORD_ITRACE_START => visitor.visit_itrace_start(p.parse()?, metadata),
             PERF_RECORD_LOST_SAMPLES => visitor.visit_lost_samples(p.parse()?, metadata),
+            PERF_RECORD_SWITCH => visitor.visit_switch(metadata),
             PERF_RECORD_SWITCH_CPU_WIDE => visitor.visit_switch_cpu_wide(p.parse()?, metadata),
             PERF_RECORD_NAMESPACES => visitor.visit_namespaces(p.parse()?, metadata),
             PERF_RECORD_KSYMBOL => visitor.visit_ksymbol(p.parse()?, metadata),
-- 
2.43.0


From 69dcecb00395137dc3c4cd3cda84b451bc0cbb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 02/14] fix: return the halves of an owned cow in order when
 splitting at an end

---
 src/util/cow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cow.rs b/src/util/cow.rs
index a20c165..e286eb1 100644
--- a/src/util/cow.rs
+++ b/src/util/cow.rs
@@ -23,8 +23,8 @@ where
                 let (head, rest) = slice.split_at(len);
                 (head.into(), rest.into())
             }
-            Self::Owned(data) if len == 0 => (data.into(), Cow::Borrowed(&[])),
-            Self::Owned(data) if len == data.len() => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == 0 => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == data.len() => (data.into(), Cow::Borrowed(&[])),
             Self::Owned(mut data) => {
                 let rest: Vec<T> = data.drain(len..).collect();
                 (data.into(), rest.into())
-- 
2.43.0


From 007b92e42c57559894ea1fb8d834aef4c210706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 03/14] fix: Namespaces::uts returned the user namespace

---
 src/records/namespaces.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/records/namespaces.rs b/src/records/namespaces.rs
index 1457821..46a243b 100644
--- a/src/records/namespaces.rs
+++ b/src/records/namespaces.rs
@@ -47,7 +47,7 @@ impl<'a> Namespaces<'a> {
 
     /// UTS namespace.
     pub fn uts(&self) -> Option<&NamespaceEntry> {
-        self.namespaces.get(bindings::USER_NS_INDEX as usize)
+        self.namespaces.get(bindings::UTS_NS_INDEX as usize)
     }
 
     /// IPC namespace.
-- 
2.43.0


From 063980eccc6daf3fc96b89dc30bd53b1ad22fa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 04/14] fix: perf_event_attr consumed 4 bytes more than its
 declared size

---
 src/impls/perf_event_attr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/impls/perf_event_attr.rs b/src/impls/perf_event_attr.rs
index e9f8ac0..a6c5461 100644
--- a/src/impls/perf_event_attr.rs
+++ b/src/impls/perf_event_attr.rs
@@ -41,7 +41,9 @@ impl<'p> Parse<'p> for perf_event_attr {
             }
         }
 
-        let mut p = p.split_at(attr.size as usize - mem::size_of_val(&attr.size))?;
+        // The size covers the whole struct, including the two fields above.
+        let parsed = mem::size_of_val(&attr.type_) + mem::size_of_val(&attr.size);
+        let mut p = p.split_at(attr.size as usize - parsed)?;
 
         if attr.size >= PERF_ATTR_SIZE_VER0 {
             attr.config = p.parse()?;
-- 
2.43.0


From a9e5a18c496feefe819718565680ef3a4e7a4430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 05/14] fix: parse the weight field of samples with
 WEIGHT_STRUCT

The kernel emits the same 8-byte field for WEIGHT and WEIGHT_STRUCT. When
only the latter was set the field was not consumed and every field after it
was misparsed.
---
 src/records/sample.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 2ee1717..34e3704 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -244,7 +244,8 @@ impl<'p> Parse<'p> for Sample<'p> {
 
             Ok(data)
         })?;
-        let weight = p.parse_if(sty.contains(SampleFlags::WEIGHT))?;
+        let weight =
+            p.parse_if(sty.intersects(SampleFlags::WEIGHT | SampleFlags::WEIGHT_STRUCT))?;
         let data_src = p.parse_if(sty.contains(SampleFlags::DATA_SRC))?;
         let transaction = p.parse_if(sty.contains(SampleFlags::TRANSACTION))?;
         let regs_intr = p.parse_if_with(sty.contains(SampleFlags::REGS_INTR), |p| {
-- 
2.43.0


From 67642fbf65a744e50e71e6e402cd719d923bc9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 06/14] fix: do not parse registers when their abi is NONE

The kernel emits only the abi field in that case, so every field after it
was misparsed.
---
 src/records/sample.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 34e3704..cbdd5d1 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -356,10 +356,18 @@ impl<'p> Registers<'p> {
         E: Endian,
         B: ParseBuf<'p>,
     {
+        let abi: SampleRegsAbi = p.parse()?;
+        // The kernel does not emit any registers if there was no register set to
+        // sample (e.g. user registers of a kernel thread).
+        let count = match abi {
+            SampleRegsAbi::NONE => 0,
+            _ => mask.count_ones() as usize,
+        };
+
         Ok(Self {
-            abi: p.parse()?,
+            abi,
             mask,
-            regs: unsafe { p.parse_slice(mask.count_ones() as _)? },
+            regs: unsafe { p.parse_slice(count)? },
         })
     }
 }
-- 
2.43.0


From 9e43b763a15eaf9f413703476dae18d4f83b7e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 07/14] fix: retry interrupted reads in the BufReader source

---
 src/parsebuf.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parsebuf.rs b/src/parsebuf.rs
index 3e1f600..d13d914 100644
--- a/src/parsebuf.rs
+++ b/src/parsebuf.rs
@@ -137,7 +137,15 @@ where
 {
     #[inline]
     fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
-        let buf = self.fill_buf()?;
+        loop {
+            match self.fill_buf() {
+                Ok(_) => break,
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e.into()),
+            }
+        }
+
+        let buf = self.buffer();
 
         if buf.is_empty() {
             Err(ParseError::eof())
-- 
2.43.0


From 5ef13202b8f9758ec52df29174c0c60860d7ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 08/14] fix: parse_rest at the end of the data returns an empty
 slice

It failed with an EOF error, so unknown records without a body and names
of zero length were rejected.
---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index edf0a28..2ce7703 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -389,7 +389,11 @@ where
 
     /// Consume the rest of the buffer and return it as a slice.
     pub fn parse_rest(&mut self) -> ParseResult<Cow<'p, [u8]>> {
-        let mut bytes = self.data.chunk()?.to_cow();
+        let mut bytes = match self.data.chunk() {
+            Ok(chunk) => chunk.to_cow(),
+            Err(e) if e.kind() == ErrorKind::Eof => return Ok(Cow::Borrowed(&[])),
+            Err(e) => return Err(e),
+        };
         self.data.advance(bytes.len());
 
         loop {
-- 
2.43.0


From 8a29cefac58bec747459c54b098e0dd3f5641c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 09/14] fix: give the parser returned by parse_metadata the
 record's misc flags

Mmap2 and SwitchCpuWide depend on them, and were misparsed when parsed
using the returned parser.
---
 src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 2ce7703..f696c41 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -528,7 +528,7 @@ where
         let mut rp = self.split_at(data_len)?;
         // MMAP and SAMPLE records do not have the sample_id struct.
         // All other records do.
-        let (p, sample_id) = match header.type_ {
+        let (mut p, sample_id) = match header.type_ {
             PERF_RECORD_MMAP | PERF_RECORD_SAMPLE => (rp, SampleId::default()),
             _ => {
                 let remaining_len = data_len
@@ -543,6 +543,9 @@ where
             }
         };
 
+        // Some records are parsed differently depending on the misc flags.
+        p.config = p.config.with_misc(header.misc);
+
         let metadata = RecordMetadata::new(header, sample_id);
         Ok((p, metadata))
     }
-- 
2.43.0


From d6e74c6513382a1cd3de3a2f3e38caef2111fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 10/14] fix: allow zero-length fields at the end of the data

An empty callchain, branch stack, stack dump or aux area at the end of a
record was rejected with an EOF error because the source was asked for a
chunk even though no bytes were needed.
---
 src/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index f696c41..58e08f8 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -201,6 +201,11 @@ where
     }
 
     fn parse_bytes_direct(&mut self, len: usize) -> ParseResult<Option<&'p [u8]>> {
+        // Nothing is needed from the source, which may already be at its end.
+        if len == 0 {
+            return Ok(Some(&[]));
+        }
+
         let chunk = match self.data.chunk()? {
             ParseBufChunk::External(chunk) => chunk,
             _ => return Ok(None),
@@ -293,6 +298,10 @@ where
     }
 
     pub(crate) fn parse_array<const N: usize>(&mut self) -> ParseResult<[u8; N]> {
+        if N == 0 {
+            return Ok([0u8; N]);
+        }
+
         let chunk = self.data.chunk()?;
 
         if chunk.len() < N {
-- 
2.43.0


From b8ef3e57fb1c31a01178f45d41ec6966311c6508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:33 +0000
Subject: [PATCH 11/14] fix: read bit-fields of branch entries and
 perf_event_attr in the source's bit order

---
 src/impls/perf_event_attr.rs |  2 +-
 src/parse.rs                 | 15 +++++++++++++++
 src/records/sample.rs        |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/impls/perf_event_attr.rs b/src/impls/perf_event_attr.rs
index a6c5461..1528e5f 100644
--- a/src/impls/perf_event_attr.rs
+++ b/src/impls/perf_event_attr.rs
@@ -50,7 +50,7 @@ impl<'p> Parse<'p> for perf_event_attr {
             attr.__bindgen_anon_1.sample_period = p.parse()?;
             attr.sample_type = p.parse()?;
             attr.read_format = p.parse()?;
-            attr._bitfield_1 = __BindgenBitfieldUnit::new(u64::to_ne_bytes(p.parse()?));
+            attr._bitfield_1 = __BindgenBitfieldUnit::new(p.parse_bitfield_u64()?);
             attr.__bindgen_anon_2.wakeup_events = p.parse()?;
             attr.bp_type = p.parse()?;
             attr.__bindgen_anon_3.config1 = p.parse()?;
diff --git a/src/parse.rs b/src/parse.rs
index 58e08f8..38ac37e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -396,6 +396,21 @@ where
         Ok(self.endian().convert_u64(array))
     }
 
+    /// Parse the storage of 64 bits worth of C bit-fields.
+    ///
+    /// Bit-fields are allocated starting from the least significant bit on
+    /// little-endian targets but from the most significant bit on big-endian
+    /// ones, so the order of the bits depends on the source endianness too.
+    pub(crate) fn parse_bitfield_u64(&mut self) -> ParseResult<[u8; 8]> {
+        let bits = self.parse_u64()?;
+        let swapped = self.endian().convert_u16([0, 1]) != u16::from_ne_bytes([0, 1]);
+
+        Ok(match swapped {
+            true => bits.reverse_bits().to_ne_bytes(),
+            false => bits.to_ne_bytes(),
+        })
+    }
+
     /// Consume the rest of the buffer and return it as a slice.
     pub fn parse_rest(&mut self) -> ParseResult<Cow<'p, [u8]>> {
         let mut bytes = match self.data.chunk() {
diff --git a/src/records/sample.rs b/src/records/sample.rs
index cbdd5d1..4da945c 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -472,7 +472,7 @@ impl<'p> Parse<'p> for BranchEntry {
             from: p.parse()?,
             to: p.parse()?,
             _bitfield_align_1: [],
-            _bitfield_1: __BindgenBitfieldUnit::new(u64::to_ne_bytes(p.parse()?)),
+            _bitfield_1: __BindgenBitfieldUnit::new(p.parse_bitfield_u64()?),
         }))
     }
 }
-- 
2.43.0


From cc3205d5098382176c455a6d05b7e60535bb89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:42 +0000
Subject: [PATCH 12/14] fix: parse_slice returned no elements for zero-sized
 types in native order

align_to never yields elements for a zero-sized type, so parse_slice and
parse_slice_direct gave an empty slice instead of the requested number of
elements, unlike parse_repeated and parse_slice in foreign byte order.
---
 src/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 38ac37e..4845538 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -492,6 +492,11 @@ where
             return Ok(None);
         }
 
+        // align_to never returns any elements if T is a zero-sized type.
+        if slice.len() != len {
+            return Ok(None);
+        }
+
         Ok(Some(slice))
     }
 
-- 
2.43.0


From 6caf79ba133c57aa5893009c26c2181ed31fdcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:22 +0000
Subject: [PATCH 13/14] fix: separate the message of a ParseError from its
 cause

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 6816124..81b8cc0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -124,7 +124,7 @@ impl Display for ParseError {
         }
 
         if let Some(source) = &self.source {
-            if matches!(self.code, ErrorKind::External) {
+            if !matches!(self.code, ErrorKind::External) {
                 f.write_str(": ")?;
             }
 
-- 
2.43.0


From 65458e38b4e233c0ba05ffda8889e909bc0b7e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:22 +0000
Subject: [PATCH 14/14] fix: render build ids in hexadecimal

---
 src/util/fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/fmt.rs b/src/util/fmt.rs
index a207136..3c83ff8 100644
--- a/src/util/fmt.rs
+++ b/src/util/fmt.rs
@@ -47,12 +47,12 @@ pub(crate) struct HexStr<'a>(pub &'a [u8]);
 impl fmt::Debug for HexStr<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         for &b in self.0 {
-            let nibbles = [b & 0xF, b >> 4];
+            let nibbles = [b >> 4, b & 0xF];
 
             for n in nibbles {
                 let c = match n {
                     0x0..=0x9 => b'0' + n,
-                    0xA..=0xF => b'A' + n,
+                    0xA..=0xF => b'A' + (n - 0xA),
                     _ => unreachable!(),
                 };
 
-- 
2.43.0

