From ddb33889baeb46a1a32ddfa55d44d7b97c6bd615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 01/61] nd_sim: cfg-guarded hooks for deterministic simulation
 (off by default)

---
 src/main.rs   | 30 +++++++++++++++++++++++++++++-
 src/params.rs |  5 ++++-
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 35ae6de..654d057 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,9 @@
+// hooks for deterministic simulation; inert unless built with `--cfg nd_sim`
+#![allow(unexpected_cfgs)]
+#[cfg(nd_sim)]
+#[macro_use(eprint, eprintln, print, println)]
+extern crate std as nd_sim_std;
+
 mod byte;
 mod drain;
 mod eval;
@@ -102,6 +108,28 @@ impl Args {
     }
 }
 
+#[cfg(nd_sim)]
+pub fn nd_sim_main() -> impl std::process::Termination {
+    main()
+}
+
+#[cfg(not(nd_sim))]
+fn get_matches(command: &mut clap::Command) -> clap::ArgMatches {
+    command.get_matches_mut()
+}
+
+#[cfg(nd_sim)]
+fn get_matches(command: &mut clap::Command) -> clap::ArgMatches {
+    command.try_get_matches_from_mut(std::env::args_os()).unwrap_or_else(|e| {
+        if e.use_stderr() {
+            eprint!("{e}");
+        } else {
+            print!("{e}");
+        }
+        std::process::exit(e.exit_code())
+    })
+}
+
 fn main() {
     let mut command = Args::command()
         .name("nd")
@@ -137,7 +165,7 @@ fn main() {
 }
 
 fn main_impl(command: &mut clap::Command) -> Result<()> {
-    let args = Args::from_arg_matches(&command.get_matches_mut())?;
+    let args = Args::from_arg_matches(&get_matches(command))?;
     if args.count_stdin() + args.pipeline.count_stdin() > 1 {
         return Err(anyhow!("stdin (\"-\" or \"/dev/stdin\") must not be used more than once"));
     }
diff --git a/src/params.rs b/src/params.rs
index e01189d..04fa984 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -4,9 +4,12 @@
 #[cfg(test)]
 pub const BLOCK_SIZE: usize = 29 * 5;
 
-#[cfg(not(test))]
+#[cfg(all(not(test), not(nd_sim)))]
 pub const BLOCK_SIZE: usize = 2 * 1024 * 1024;
 
+#[cfg(all(not(test), nd_sim))]
+pub const BLOCK_SIZE: usize = std::sim_usize(env!("ND_SIM_BLOCK_SIZE"));
+
 pub const MARGIN_SIZE: usize = 256;
 
 // end of params.rs
-- 
2.43.0


From f4e6b65f0ca3c45166a8a3fa2379de9daababde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 02/61] fix: retry reads that were interrupted by a signal

---
 src/byte/raw.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/byte/raw.rs b/src/byte/raw.rs
index 3738a3e..d6ea575 100644
--- a/src/byte/raw.rs
+++ b/src/byte/raw.rs
@@ -7,7 +7,7 @@ use crate::filluninit::FillUninit;
 use crate::params::BLOCK_SIZE;
 use crate::streambuf::StreamBuf;
 use anyhow::Result;
-use std::io::Read;
+use std::io::{ErrorKind, Read};
 
 pub struct RawStream {
     src: Box<dyn Read + Send>,
@@ -27,7 +27,13 @@ impl RawStream {
 impl ByteStream for RawStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         self.buf.fill_buf(request, |_, buf| {
-            let len = buf.fill_uninit(BLOCK_SIZE, |arr| Ok(self.src.read(arr)?))?;
+            let len = buf.fill_uninit(BLOCK_SIZE, |arr| loop {
+                match self.src.read(arr) {
+                    // not an error; nothing has been read yet (the same as `Read::read_exact` does)
+                    Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                    x => return Ok(x?),
+                }
+            })?;
             Ok(len == 0)
         })
     }
-- 
2.43.0


From 7aa8c4f32b24c222f65aadf9d86f65cb5af99969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 03/61] fix: report an error on flushing the last part of the
 output

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 654d057..18c18af 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -260,5 +260,8 @@ fn consume_stream(stream: Box<dyn ByteStream>, drain: Box<dyn Write>) -> Result<
         stream.consume(bytes);
     }
 
+    // the last part can stay in the buffer of the drain (e.g. stdout), where its error would be lost
+    drain.flush()?;
+
     Ok(())
 }
-- 
2.43.0


From a1de19b8b8b757399dafe4a2e6ba74480de07125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 04/61] fix: zip ends where the shortest source ends

---
 src/byte/zip.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/byte/zip.rs b/src/byte/zip.rs
index 7befbfc..271a176 100644
--- a/src/byte/zip.rs
+++ b/src/byte/zip.rs
@@ -74,17 +74,22 @@ impl Zipper {
         let request = (request + self.srcs.len() - 1) / self.srcs.len();
 
         // bulk_len is the minimum valid slice length among the source buffers
-        let mut is_eof = true;
+        let mut eof_len = usize::MAX;
         let mut len = usize::MAX;
         for src in &mut self.srcs {
             let (x, y) = src.fill_buf(request)?;
-            is_eof = is_eof && x;
+            if x {
+                eof_len = std::cmp::min(eof_len, y);
+            }
             len = std::cmp::min(len, y);
         }
 
         // teardown
         let len = (len / self.word_size) * self.word_size;
 
+        // the shortest source terminates the output
+        let is_eof = (eof_len / self.word_size) * self.word_size == len;
+
         // initialize the pointer cache (used in `gather_impl`)
         for (src, ptr) in self.srcs.iter_mut().zip(self.ptrs.iter_mut()) {
             *ptr = src.as_slice().as_ptr();
-- 
2.43.0


From 22081aa1c67a17e652fcaa85f1ec9c1c9d2443cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 05/61] fix: don't panic on e..0, whose end can't be before the
 start of the stream

---
 src/mapper.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mapper.rs b/src/mapper.rs
index 83f6920..feef865 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -195,7 +195,6 @@ impl RangeMapper {
     pub fn trans_offset(&self) -> usize {
         match (self.start, self.end) {
             (StartAnchored(x), EndAnchored(_)) => x,
-            (EndAnchored(_), StartAnchored(x)) => x - 1,
             _ => usize::MAX,
         }
     }
-- 
2.43.0


From a3591f6a6d8c5e5066c965d7ea1b5625cbdbaf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 06/61] fix: leave the clipped last chunk in --walk, and don't
 read ahead a block for every chunk

---
 src/segment/walk.rs | 63 ++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index d089694..a1051cf 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -31,7 +31,7 @@ impl SpanFetcher {
         Ok(SpanFetcher { expr, rpn })
     }
 
-    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut Box<dyn ByteStream>) -> i64 {
+    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut Box<dyn ByteStream>, buffered: &mut (bool, usize)) -> i64 {
         debug_assert!((1..=8).contains(&elem_size) && elem_size.is_power_of_two());
 
         if index < 0 {
@@ -41,8 +41,14 @@ impl SpanFetcher {
         let offset = skip + index as usize * elem_size;
         let min_fill_bytes = offset + elem_size;
 
-        let (_, bytes) = src.fill_buf(min_fill_bytes).expect("failed to feed the input stream");
-        if bytes < min_fill_bytes {
+        while !buffered.0 && buffered.1 < min_fill_bytes {
+            let prev_bytes = buffered.1;
+            *buffered = src.fill_buf(min_fill_bytes).expect("failed to feed the input stream");
+            if buffered.1 <= prev_bytes {
+                src.consume(0); // need more
+            }
+        }
+        if buffered.1 < min_fill_bytes {
             return 0;
         }
 
@@ -57,8 +63,8 @@ impl SpanFetcher {
         (val << shift) >> shift
     }
 
-    fn get_next_span(&self, skip: usize, src: &mut Box<dyn ByteStream>) -> usize {
-        let getter = |id: usize, val: i64| -> i64 { Self::get_array_element(skip, id, val, src) };
+    fn get_next_span(&self, skip: usize, src: &mut Box<dyn ByteStream>, buffered: &mut (bool, usize)) -> usize {
+        let getter = |id: usize, val: i64| -> i64 { Self::get_array_element(skip, id, val, src, buffered) };
 
         let val = self.rpn.evaluate(getter);
         if val.is_err() {
@@ -105,22 +111,23 @@ impl WalkSlicer {
         })
     }
 
-    fn calc_next_chunk_len(&mut self) -> usize {
-        let mut chunk_len = 0;
+    fn calc_next_chunk_len(&mut self, buffered: &mut (bool, usize)) -> usize {
+        let mut chunk_len: usize = 0;
         for (i, f) in self.fetchers.iter().enumerate() {
-            let span = f.get_next_span(self.pos, &mut self.src);
+            let span = f.get_next_span(self.pos, &mut self.src, buffered);
             self.spans[i] = span;
 
-            chunk_len += span;
+            chunk_len = chunk_len.saturating_add(span);
         }
         chunk_len
     }
 
-    fn extend_segment_buf(&mut self, chunk_len: usize) -> Result<(bool, usize)> {
-        let (is_eof, bytes) = self.src.fill_buf(chunk_len)?;
-        if is_eof && bytes < chunk_len {
+    // called when the whole chunk is in the buffer, or when the stream ends within the chunk
+    fn extend_segment_buf(&mut self, chunk_len: usize, bytes: usize) {
+        let rem = bytes - self.pos;
+        if rem < chunk_len {
             // TODO: use logger
-            eprintln!("chunk clipped (request = {chunk_len}, remaining bytes = {bytes})");
+            eprintln!("chunk clipped (request = {chunk_len}, remaining bytes = {rem})");
         }
 
         for span in &self.spans {
@@ -134,35 +141,31 @@ impl WalkSlicer {
             }
 
             self.segments.push(Segment { pos: self.pos, len });
-            self.pos += span;
+            self.pos += len;
         }
-        Ok((is_eof, bytes))
     }
 }
 
 impl SegmentStream for WalkSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let request = std::cmp::max(BLOCK_SIZE, 2 * self.pos);
-        let (is_eof, bytes) = self.src.fill_buf(request)?;
+        let mut buffered = self.src.fill_buf(request)?;
 
-        if is_eof && self.pos >= bytes {
-            let count = self.segments.len();
-            let max_consume = std::cmp::min(bytes, self.pos);
-            return Ok((is_eof, bytes, count, max_consume));
-        }
+        while self.pos < buffered.1 {
+            // this extends the buffer when the expression refers to the bytes not in the buffer
+            let chunk_len = self.calc_next_chunk_len(&mut buffered);
 
-        let (is_eof, bytes) = loop {
-            let chunk_len = self.calc_next_chunk_len();
-            if self.pos + chunk_len > bytes {
-                break (is_eof, bytes);
+            let tail = std::cmp::min(self.pos.saturating_add(chunk_len), isize::MAX as usize);
+            if !buffered.0 && tail > buffered.1 {
+                buffered = self.src.fill_buf(tail)?;
             }
-
-            let (is_eof, bytes) = self.extend_segment_buf(chunk_len)?;
-            if self.pos >= bytes {
-                break (is_eof, bytes);
+            if !buffered.0 && tail > buffered.1 {
+                break;
             }
-        };
+            self.extend_segment_buf(chunk_len, buffered.1);
+        }
 
+        let (is_eof, bytes) = buffered;
         let count = self.segments.len();
         let max_consume = std::cmp::min(bytes, self.pos);
         Ok((is_eof, bytes, count, max_consume))
-- 
2.43.0


From 7f4ef605af2849a39ad25e269fc9cc52f35181ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 07/61] fix: count the slices that are left unconsumed only
 once in the drain

---
 src/drain/scatter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 80be049..41af5f7 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -125,7 +125,7 @@ impl ScatterDrain {
 
             self.formatter
                 .format_segments(self.offset, stream, &segments[self.src_consumed..count], buf);
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
@@ -155,9 +155,9 @@ impl ScatterDrain {
                 self.file
                     .as_mut()
                     .unwrap()
-                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + i)?;
+                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + self.src_consumed + i)?;
             }
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
-- 
2.43.0


From 62acb75364aae97f099b359c48d7142221a40e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 08/61] fix: don't leave the previous content of the file given
 by --output

---
 src/drain/scatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 41af5f7..b7b3236 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -31,7 +31,7 @@ impl Drain {
         }
 
         let file = template.render(|_, _| 0)?;
-        let file = OpenOptions::new().read(false).write(true).create(true).open(file)?;
+        let file = OpenOptions::new().read(false).write(true).create(true).truncate(true).open(file)?;
         Ok(Drain::File(file))
     }
 }
-- 
2.43.0


From b227cd39b4be155212cfeb9981802b1d6ee6a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 09/61] fix: --guide keeps the slice that was not covered by
 the stream yet, and clips slices at the end of the stream

---
 src/segment/guided.rs | 52 +++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/segment/guided.rs b/src/segment/guided.rs
index 35722b0..fa2ca87 100644
--- a/src/segment/guided.rs
+++ b/src/segment/guided.rs
@@ -6,7 +6,7 @@ use crate::byte::ByteStream;
 use crate::params::BLOCK_SIZE;
 use crate::text::parser::TextParser;
 use crate::text::InoutFormat;
-use anyhow::Result;
+use anyhow::{Context, Result};
 
 pub struct GuidedSlicer {
     src: Box<dyn ByteStream>,
@@ -32,40 +32,44 @@ impl GuidedSlicer {
     }
 
     fn extend_segment_buf(&mut self, is_eof: bool, bytes: usize) -> Result<()> {
-        // all existing segments must be covered as we requested longer
-        debug_assert!(self.segments.last().map_or(0, |x| x.tail()) <= bytes);
-
         // first update max_consume to the end of the current chunk of the stream
         // (may be shortened in the loop)
         self.max_consume = bytes;
 
-        let tail = self.src_consumed + bytes; // in absolute offset
         loop {
-            // read the next guide to the buffer
-            self.buf.clear();
+            // `guide_consumed` slices are exposed. there can be another one, which was not covered by
+            // the stream in the previous call. otherwise read the next guide to the buffer
+            if self.guide_consumed == self.segments.len() {
+                self.buf.clear();
+
+                let ret = self.guide.read_line(&mut self.buf)?;
+                if ret.is_none() {
+                    // the guide stream reached EOF
+                    break;
+                }
+                let (offset, span) = ret.unwrap();
+
+                // slice the stream out by the guide
+                let pos = offset
+                    .checked_sub(self.src_consumed)
+                    .with_context(|| format!("guide not sorted by offset (at {offset:#x})"))?;
+                self.segments.push(Segment { pos, len: span });
+            }
 
-            let ret = self.guide.read_line(&mut self.buf)?;
-            if ret.is_none() {
-                // the guide stream reached EOF
-                self.guide_consumed = self.segments.len();
+            let s = &mut self.segments[self.guide_consumed];
+            if !is_eof && (s.pos >= bytes || s.tail() > bytes) {
+                // do not expose the last segment
+                self.max_consume = std::cmp::min(self.max_consume, s.pos);
                 break;
             }
-            let (offset, span) = ret.unwrap();
-
-            // slice the stream out by the guide
-            let pos = offset - self.src_consumed;
-            let len = if is_eof {
-                std::cmp::min(offset + span, tail) - offset
-            } else {
-                span
-            };
-            self.segments.push(Segment { pos, len });
 
-            if offset + span > tail {
-                self.max_consume = std::cmp::min(self.max_consume, pos);
-                self.guide_consumed = self.segments.len() - 1; // do not expose the last segment
+            // the stream ended before the segment, and before all of the following ones
+            if s.pos >= bytes {
+                self.segments.pop();
                 break;
             }
+            s.len = std::cmp::min(s.len, bytes - s.pos);
+            self.guide_consumed += 1;
         }
         Ok(())
     }
-- 
2.43.0


From 0cdbadbd7a3fd35da39545b69442335efebbe9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 10/61] fix: --find doesn't lose or duplicate matches near the
 block boundary

---
 src/segment/exact.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/segment/exact.rs b/src/segment/exact.rs
index c6bbaca..21608eb 100644
--- a/src/segment/exact.rs
+++ b/src/segment/exact.rs
@@ -58,7 +58,10 @@ impl SegmentStream for ExactMatchSlicer {
             });
         }
 
-        self.scanned = if is_eof { bytes } else { bytes - self.pattern.len() + 1 };
+        // the next match starts after the last one, and the matches don't overlap
+        let tail = self.segments.last().map_or(0, |x| x.tail());
+        let scanned = if is_eof { bytes } else { (bytes + 1).saturating_sub(len) };
+        self.scanned = std::cmp::max(self.scanned, std::cmp::max(tail, scanned));
         Ok((is_eof, bytes, self.segments.len(), self.scanned))
     }
 
-- 
2.43.0


From 3092e75cde11e9e4ae0b8ad3cf4231bf63872c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 11/61] fix: --regex scans every slice exactly once

---
 src/segment/regex.rs | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/segment/regex.rs b/src/segment/regex.rs
index b8afac7..529f4fc 100644
--- a/src/segment/regex.rs
+++ b/src/segment/regex.rs
@@ -9,7 +9,9 @@ use regex::bytes::{Match, Regex};
 pub struct RegexSlicer {
     src: Box<dyn SegmentStream>,
     matches: Vec<Segment>,
-    scanned: usize,
+    exposed: usize, // #matches shown to the downstream
+    scanned: usize, // #segments at the head of the source that are already scanned
+    tail: usize,    // end of the stream (usize::MAX before reaching EOF)
     re: Regex,
 }
 
@@ -21,7 +23,9 @@ impl RegexSlicer {
         Ok(RegexSlicer {
             src,
             matches,
+            exposed: 0,
             scanned: 0,
+            tail: usize::MAX,
             re,
         })
     }
@@ -38,34 +42,44 @@ impl SegmentStream for RegexSlicer {
 
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
 
+        // find matches in the slices that are not scanned yet
         let (stream, segments) = self.src.as_slices();
-        for s in &segments[..count] {
-            if s.pos < self.scanned {
-                continue;
-            }
-
+        for s in &segments[self.scanned..count] {
             self.matches
                 .extend(self.re.find_iter(&stream[s.as_range()]).map(|x| to_segment(x, s.pos)));
         }
+        self.scanned = count;
+        self.matches.sort_by_key(|x| (x.pos, x.len));
+
+        // the slices to come may have matches before those at or after `max_consume`
+        self.exposed = if is_eof {
+            self.matches.len()
+        } else {
+            self.matches.partition_point(|x| x.pos < max_consume)
+        };
+        self.tail = if is_eof { bytes } else { usize::MAX };
 
-        self.scanned += bytes;
-
-        Ok((is_eof, bytes, self.matches.len(), max_consume))
+        Ok((is_eof, bytes, self.exposed, max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.matches)
+        (stream, &self.matches[..self.exposed])
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-        let (bytes, _) = self.src.consume(bytes)?;
+        let (bytes, count) = self.src.consume(bytes)?;
         if bytes == 0 {
             return Ok((0, 0));
         }
+        self.scanned -= count;
 
-        // determine how many bytes to consume...
-        let from = self.matches.partition_point(|x| x.pos < bytes);
+        // determine how many matches to consume (with the empty ones at the end of the stream)
+        let from = if bytes == self.tail {
+            self.matches.len()
+        } else {
+            self.matches.partition_point(|x| x.pos < bytes)
+        };
         let to = self.matches.len();
 
         self.matches.copy_within(from..to, 0);
@@ -75,7 +89,8 @@ impl SegmentStream for RegexSlicer {
             m.pos -= bytes;
         }
 
-        self.scanned -= bytes;
+        self.exposed -= from;
+        self.tail -= bytes;
 
         Ok((bytes, from))
     }
-- 
2.43.0


From 0fcf2963da096897e08e09b4f307493e7c50a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 12/61] fix: don't parse a header of a text record before the
 whole of it arrives

---
 src/text/parser/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 2f36c5d..fd53548 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -237,6 +237,9 @@ fn test_parse_hex_body() {
     test_parse_hex_body_impl(&parse_hex_body);
 }
 
+// longer than any two numbers and the delimiters next to them
+const MAX_HEAD_LEN: usize = 64;
+
 type ParseSingle = fn(&[u8]) -> Option<(u64, usize)>;
 type ParseBody = fn(bool, &[u8], &mut [u8]) -> Option<((usize, usize), usize)>;
 
@@ -470,7 +473,12 @@ impl TextParser {
     }
 
     pub fn read_line(&mut self, buf: &mut Vec<u8>) -> Result<Option<(usize, usize)>> {
-        let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
+        let (mut is_eof, mut len) = self.src.fill_buf(BLOCK_SIZE)?;
+
+        // the header must be parsed at once, so wait for the whole of it
+        while !is_eof && len < MAX_HEAD_LEN && !self.src.as_slice()[..len].contains(&b'\n') {
+            (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
+        }
         if is_eof && len == 0 {
             return Ok(None);
         }
-- 
2.43.0


From e2338611a4c9738b259a839930a7163d4a67ddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 13/61] fix: don't pad the text itself when --cat or --zip
 aligns text inputs

---
 src/pipeline.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 00658e7..2539604 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -330,7 +330,9 @@ impl Pipeline {
     }
 
     fn build_parser(&self, source: Box<dyn Read + Send>) -> Box<dyn ByteStream> {
-        let source = Box::new(RawStream::new(source, self.word_size, self.filler));
+        // texts are not aligned by themselves, but the streams parsed from them are
+        let align = if self.in_format.is_binary() { self.word_size } else { 1 };
+        let source = Box::new(RawStream::new(source, align, self.filler));
         if self.in_format.is_binary() {
             source
         } else if self.in_format.is_gapless() {
-- 
2.43.0


From a290178fd68803dee0189c09edeec513491ffe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 14/61] fix: don't split a column of a text record at the end
 of the buffer

---
 src/text/parser/mod.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index fd53548..271cfe0 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -393,7 +393,7 @@ impl TextParser {
         Some((fwd1 + fwd2 + 1, offset as usize, span as usize))
     }
 
-    fn read_body(&self, stream: &[u8], len: usize, is_in_tail: bool, buf: &mut Vec<u8>) -> Option<(usize, bool, bool, bool)> {
+    fn read_body(&self, stream: &[u8], len: usize, is_eof: bool, is_in_tail: bool, buf: &mut Vec<u8>) -> Option<(usize, bool, bool, bool)> {
         debug_assert!(stream.len() >= len + MARGIN_SIZE);
 
         let mut stream = stream;
@@ -423,12 +423,13 @@ impl TextParser {
             let ret = buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(is_in_tail, stream, arr))?;
             let (scanned, parsed) = ret.0;
 
-            if parsed > rem_len {
-                debug_assert!(!is_in_tail);
-                let total = (len + parsed - rem_len) / 3;
-                let keep = len / 3;
-                buf.truncate(buf.len() + keep - total);
-                return Some((keep * 3, false, false, true));
+            // when neither '|' nor '\n' is found in the remainder, the last column may be split there;
+            // leave it unconsumed and parse it again with its continuation
+            if !is_eof && !is_in_tail && parsed >= rem_len {
+                let keep = rem_len / 3;
+                let drop = ret.1.saturating_sub(keep);
+                buf.truncate(buf.len() - drop);
+                return Some((len - rem_len + keep * 3, false, false, true));
             }
 
             debug_assert!(!is_in_tail || parsed == 0);
@@ -450,7 +451,7 @@ impl TextParser {
         let mut is_in_tail = is_in_tail;
         while rem_len > 0 {
             let (fwd, delim_found, eol_found, refeed) = self
-                .read_body(stream, rem_len, is_in_tail, buf)
+                .read_body(stream, rem_len, is_eof, is_in_tail, buf)
                 .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
             rem_len -= fwd;
             is_in_tail = delim_found;
@@ -516,7 +517,7 @@ impl TextParser {
         let mut is_in_tail = false;
         while rem_len > 0 {
             let (fwd, delim_found, eol_found, refeed) = self
-                .read_body(stream, rem_len, is_in_tail, buf)
+                .read_body(stream, rem_len, is_eof, is_in_tail, buf)
                 .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
 
             rem_len -= fwd;
-- 
2.43.0


From 85fdc1bd156827e843ec69e4ad114f2399e2d90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 15/61] fix: apply patches at the end of the stream

---
 src/byte/patch.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/byte/patch.rs b/src/byte/patch.rs
index 6fe8beb..33ad875 100644
--- a/src/byte/patch.rs
+++ b/src/byte/patch.rs
@@ -90,7 +90,8 @@ impl ByteStream for PatchStream {
             while self.skip > 0 {
                 let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
                 if is_eof && len == 0 {
-                    return Ok(true);
+                    self.skip = 0;
+                    break;
                 }
 
                 let consume_len = std::cmp::min(self.skip, len);
@@ -98,13 +99,23 @@ impl ByteStream for PatchStream {
                 self.skip -= consume_len;
             }
 
-            let (_, len) = self.src.fill_buf(BLOCK_SIZE)?;
+            let (is_src_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
             let mut rem_len = len;
             let mut stream = self.src.as_slice();
 
             let is_eof = loop {
                 if rem_len == 0 {
-                    break true;
+                    if !is_src_eof {
+                        break false;
+                    }
+                    if self.patch.offset == usize::MAX {
+                        break true;
+                    }
+
+                    // patches at (or after) the end of the original stream
+                    self.offset = self.patch.offset;
+                    self.offset += self.patch.feed(self.offset, buf)?;
+                    break false;
                 }
 
                 // region where we keep the original stream
-- 
2.43.0


From 5e8dc60188118e9e8cc8087aa898c3139d721b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 16/61] fix: report a malformed first record as an error, not
 by a panic

---
 src/byte/patch.rs | 13 +++++++++----
 src/byte/text.rs  | 14 +++++++++-----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/byte/patch.rs b/src/byte/patch.rs
index 33ad875..f1d568f 100644
--- a/src/byte/patch.rs
+++ b/src/byte/patch.rs
@@ -64,6 +64,7 @@ impl PatchFeeder {
 pub struct PatchStream {
     src: Box<dyn ByteStream>,
     patch: PatchFeeder,
+    is_first: bool,
     buf: StreamBuf,
     skip: usize,
     offset: usize,
@@ -71,12 +72,10 @@ pub struct PatchStream {
 
 impl PatchStream {
     pub fn new(src: Box<dyn ByteStream>, patch: Box<dyn ByteStream>, format: &InoutFormat) -> Self {
-        let mut patch = PatchFeeder::new(patch, format);
-        patch.fill_buf().unwrap();
-
         PatchStream {
             src,
-            patch,
+            patch: PatchFeeder::new(patch, format),
+            is_first: true,
             buf: StreamBuf::new(),
             skip: 0,
             offset: 0,
@@ -86,6 +85,12 @@ impl PatchStream {
 
 impl ByteStream for PatchStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        // read the first line
+        if self.is_first {
+            self.patch.fill_buf()?;
+            self.is_first = false;
+        }
+
         self.buf.fill_buf(request, |_, buf| {
             while self.skip > 0 {
                 let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
diff --git a/src/byte/text.rs b/src/byte/text.rs
index ec58818..df0b8e4 100644
--- a/src/byte/text.rs
+++ b/src/byte/text.rs
@@ -81,18 +81,16 @@ impl TextFeeder {
 
 pub struct TextStream {
     line: TextFeeder,
+    is_first: bool,
     buf: StreamBuf,
     offset: usize,
 }
 
 impl TextStream {
     pub fn new(src: Box<dyn ByteStream>, align: usize, filler: u8, format: &InoutFormat) -> Self {
-        // read the first line
-        let mut line = TextFeeder::new(src, format);
-        line.fill_buf().unwrap();
-
         TextStream {
-            line,
+            line: TextFeeder::new(src, format),
+            is_first: true,
             buf: StreamBuf::new_with_align(align, filler),
             offset: 0,
         }
@@ -101,6 +99,12 @@ impl TextStream {
 
 impl ByteStream for TextStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        // read the first line
+        if self.is_first {
+            self.line.fill_buf()?;
+            self.is_first = false;
+        }
+
         let filler = self.buf.filler();
         self.buf.fill_buf(request, |_, buf| {
             if self.line.offset == usize::MAX {
-- 
2.43.0


From fc7d8b80b509f1e7281659f12c13eb8864da7bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 17/61] fix: report malformed guide records after the end of
 the stream

---
 src/segment/guided.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/segment/guided.rs b/src/segment/guided.rs
index fa2ca87..1f2d099 100644
--- a/src/segment/guided.rs
+++ b/src/segment/guided.rs
@@ -63,10 +63,10 @@ impl GuidedSlicer {
                 break;
             }
 
-            // the stream ended before the segment, and before all of the following ones
+            // the stream ended before the segment
             if s.pos >= bytes {
                 self.segments.pop();
-                break;
+                continue;
             }
             s.len = std::cmp::min(s.len, bytes - s.pos);
             self.guide_consumed += 1;
-- 
2.43.0


From 32d668035e3b56a93f1348ee39e867e70ea8fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 18/61] fix: --width doesn't emit slices whose origin is beyond
 the end of the stream

---
 src/segment/stride.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index f41f0d4..2c04bad 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -319,8 +319,9 @@ impl ConstSegments {
             return self.update_lend_state(next_tail, len, self.segments.len());
         }
 
-        let n_extra = self.count_segments(next_tail.saturating_sub(len + self.pitch));
-        // let n_extra = std::cmp::min(self.segments.len(), n_extra);
+        // hide the segments whose reserved bytes are not available yet
+        let n_extra = self.count_segments(next_tail + self.tail_reserved_bytes - (len + self.pitch));
+        let n_extra = std::cmp::min(self.segments.len(), n_extra);
 
         let next_tail = next_tail - n_extra * self.pitch;
         let count = self.segments.len() - n_extra;
-- 
2.43.0


From dbed093f2f20e8aded3b1fe79b31d157b05a776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 19/61] fix: --invert and --extend don't lose, duplicate, or
 overrun slices

The mapped slices were exposed in the order of the expressions, before
the bytes they cover arrived, and without being clipped at the end of the
stream.
---
 src/segment/bridge.rs |  90 ++++++++-----------------------
 src/segment/extend.rs | 121 ++++++++----------------------------------
 src/segment/mapped.rs |  74 ++++++++++++++++++++++++++
 src/segment/mod.rs    |   1 +
 4 files changed, 119 insertions(+), 167 deletions(-)
 create mode 100644 src/segment/mapped.rs

diff --git a/src/segment/bridge.rs b/src/segment/bridge.rs
index 58b0232..643ef84 100644
--- a/src/segment/bridge.rs
+++ b/src/segment/bridge.rs
@@ -1,25 +1,24 @@
 // @file bridge.rs
 // @author Hajime Suzuki
 
+use super::mapped::MappedSegments;
 use super::{Segment, SegmentStream};
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
 
 pub struct BridgeStream {
     src: Box<dyn SegmentStream>,
-    segments: Vec<Segment>,
 
-    // #segments that are not consumed in the source but already accumulated to `acc`
+    // mapped segments, including ones that are not ready to be exposed
+    segments: MappedSegments,
+
+    // #segments that are not consumed in the source but already accumulated to `segments`
     // note: not the count from the beginning of the source stream
     src_scanned: usize,
 
     // end position of the previous source segment
     last_end: isize,
 
-    // the number of bytes that can be consumed at most in this slicer. is computed
-    // from the `last_end` so that the next any segment overlaps with the cosumable range
-    max_consume: usize,
-
     mappers: Vec<SegmentMapper>,
 }
 
@@ -36,52 +35,24 @@ impl BridgeStream {
 
         Ok(BridgeStream {
             src,
-            segments: Vec::new(),
+            segments: MappedSegments::default(),
             src_scanned: 0,
             last_end: 0,
-            max_consume: 0,
             mappers,
         })
     }
 
-    fn update_max_consume(&mut self, is_eof: bool, bytes: usize) {
-        if is_eof {
-            self.max_consume = bytes;
-            return;
-        }
-
-        let phantom = [self.last_end, self.last_end + 1];
+    // the start position before which no segment will be mapped from now on
+    fn next_start(&self, max_consume: usize) -> usize {
+        // the next gap starts at the end of the last segment or later, and doesn't end
+        // before the next segment
+        let phantom = [self.last_end, std::cmp::max(self.last_end, max_consume as isize)];
 
-        let eval_phantom = |m: &SegmentMapper| {
-            let (start, end) = m.evaluate(&phantom, &phantom);
-            std::cmp::min(start, end)
-        };
-        let max_consume = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
-        let max_consume = std::cmp::max(0, max_consume) as usize;
-
-        self.max_consume = max_consume;
+        let start = self.mappers.iter().map(|m| m.evaluate(&phantom, &phantom).0).min();
+        start.unwrap_or(0).max(0) as usize
     }
 
     fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize) {
-        let tail = if is_eof { bytes } else { usize::MAX };
-
-        let map_segment = |m: &SegmentMapper, gap: &[isize; 2]| -> Option<Segment> {
-            let (start, end) = m.evaluate(gap, gap);
-
-            let start = (start.max(0) as usize).min(tail);
-            let end = (end.max(0) as usize).min(tail);
-
-            // record the segment
-            if start < end {
-                Some(Segment {
-                    pos: start,
-                    len: end - start,
-                })
-            } else {
-                None
-            }
-        };
-
         let (_, segments) = self.src.as_slices();
 
         // first map all the source segment pairs with `mappers`
@@ -96,11 +67,9 @@ impl BridgeStream {
                     continue;
                 }
 
-                // map the gap then clip
+                // map the gap
                 for mapper in &self.mappers {
-                    if let Some(s) = map_segment(mapper, &[prev_end, curr_start]) {
-                        self.segments.push(s);
-                    }
+                    self.segments.push(mapper, &[prev_end, curr_start]);
                 }
                 prev_end = std::cmp::max(prev_end, curr_end);
             }
@@ -111,9 +80,7 @@ impl BridgeStream {
             let bytes = bytes as isize;
 
             for mapper in &self.mappers {
-                if let Some(s) = map_segment(mapper, &[prev_end, bytes]) {
-                    self.segments.push(s);
-                }
+                self.segments.push(mapper, &[prev_end, bytes]);
             }
             prev_end = bytes;
         }
@@ -129,36 +96,25 @@ impl SegmentStream for BridgeStream {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
         self.extend_segment_buf(is_eof, count, bytes);
 
-        // update max_consume
-        self.update_max_consume(is_eof, bytes);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
+        let limit = std::cmp::min(max_consume, self.next_start(max_consume));
+        let (count, max_consume) = self.segments.update(is_eof, bytes, limit);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, count, max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.segments)
+        (stream, self.segments.as_slice())
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-        let bytes = std::cmp::min(bytes, self.max_consume);
+        let bytes = std::cmp::min(bytes, self.segments.max_consume());
         let (bytes, src_count) = self.src.consume(bytes)?;
         self.src_scanned -= src_count;
-
-        let from = self.segments.partition_point(|x| x.pos < bytes);
-        let to = self.segments.len();
-
-        self.segments.copy_within(from..to, 0);
-        self.segments.truncate(to - from);
-
-        for s in &mut self.segments {
-            s.pos -= bytes;
-        }
         self.last_end -= bytes as isize;
-        self.max_consume -= bytes;
 
-        Ok((bytes, from))
+        let count = self.segments.consume(bytes);
+        Ok((bytes, count))
     }
 }
 
diff --git a/src/segment/extend.rs b/src/segment/extend.rs
index d883212..79982f5 100644
--- a/src/segment/extend.rs
+++ b/src/segment/extend.rs
@@ -1,44 +1,21 @@
 // @file extend.rs
 // @author Hajime Suzuki
 
+use super::mapped::MappedSegments;
 use super::{Segment, SegmentStream};
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
-use std::cmp::Reverse;
-use std::collections::BinaryHeap;
-
-#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Copy, Clone)]
-struct SorterElement {
-    pos: usize,
-    len: usize,
-    original_end: usize,
-}
-
-impl From<SorterElement> for Segment {
-    fn from(elem: SorterElement) -> Segment {
-        Segment {
-            pos: elem.pos,
-            len: elem.len,
-        }
-    }
-}
 
 pub struct ExtendStream {
     src: Box<dyn SegmentStream>,
-    segments: Vec<Segment>,
 
-    // sorter; needed to reorder the segments when the start positions of the mapped
-    // segments are derived from the end positions of the source segments
-    sorter: BinaryHeap<Reverse<SorterElement>>,
+    // mapped segments, including ones that are not ready to be exposed
+    segments: MappedSegments,
 
-    // #segments that are not consumed in the source but already accumulated to `acc`
+    // #segments that are not consumed in the source but already accumulated to `segments`
     // note: not the count from the beginning of the source stream
     src_scanned: usize,
 
-    // the number of bytes that can be consumed at most in this slicer. is computed
-    // from the `last_end` so that the next any segment overlaps with the cosumable range
-    max_consume: usize,
-
     mappers: Vec<SegmentMapper>,
 }
 
@@ -55,115 +32,59 @@ impl ExtendStream {
 
         Ok(ExtendStream {
             src,
-            segments: Vec::new(),
-            sorter: BinaryHeap::new(),
+            segments: MappedSegments::default(),
             src_scanned: 0,
-            max_consume: 0,
             mappers,
         })
     }
 
-    fn update_max_consume(&mut self, is_eof: bool, bytes: usize, max_consume: usize) {
-        if is_eof {
-            self.max_consume = bytes;
-            return;
-        }
-
-        let max_consume = max_consume as isize;
-        let phantom = [max_consume, max_consume + 1];
+    // the start position before which no segment will be mapped from now on
+    fn next_start(&self, max_consume: usize) -> usize {
+        let phantom = [max_consume as isize, max_consume as isize];
 
-        let eval_phantom = |m: &SegmentMapper| {
-            let (start, end) = m.evaluate(&phantom, &phantom);
-            std::cmp::min(start, end)
-        };
-        let max_consume = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
-        let max_consume = std::cmp::max(0, max_consume) as usize;
-
-        self.max_consume = max_consume;
+        let start = self.mappers.iter().map(|m| m.evaluate(&phantom, &phantom).0).min();
+        start.unwrap_or(0).max(0) as usize
     }
 
-    fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize) {
-        let tail = if is_eof { bytes } else { usize::MAX };
-
-        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<SorterElement> {
-            let s = [segment.pos as isize, segment.tail() as isize];
-            let (start, end) = m.evaluate(&s, &s);
-
-            let start = (start.max(0) as usize).min(tail);
-            let end = (end.max(0) as usize).min(tail);
-
-            // record the segment
-            if start < end {
-                Some(SorterElement {
-                    pos: start,
-                    len: end - start,
-                    original_end: segment.tail(),
-                })
-            } else {
-                None
-            }
-        };
-
+    fn extend_segment_buf(&mut self, count: usize) {
         let (_, segments) = self.src.as_slices();
 
-        // first map all the source segment pairs with `mappers`
+        // map all the source segments with `mappers`
         debug_assert!(count >= self.src_scanned);
         for next in &segments[self.src_scanned..count] {
             for mapper in &self.mappers {
-                if let Some(s) = map_segment(mapper, next) {
-                    self.sorter.push(Reverse(s));
-                }
+                self.segments.push(mapper, &[next.pos as isize, next.tail() as isize]);
             }
         }
 
         // all source segments are mapped; save the source-scanning states
         self.src_scanned = count;
-
-        // then sort the mapped segments into `self.segments` array
-        let tail = if is_eof { usize::MAX } else { bytes };
-        while let Some(&Reverse(s)) = self.sorter.peek() {
-            debug_assert!(s.original_end <= tail);
-
-            let s = self.sorter.pop().unwrap().0;
-            self.segments.push(s.into());
-        }
     }
 }
 
 impl SegmentStream for ExtendStream {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
-        self.extend_segment_buf(is_eof, count, bytes);
+        self.extend_segment_buf(count);
 
-        // update max_consume
-        self.update_max_consume(is_eof, bytes, max_consume);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
+        let limit = std::cmp::min(max_consume, self.next_start(max_consume));
+        let (count, max_consume) = self.segments.update(is_eof, bytes, limit);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, count, max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.segments)
+        (stream, self.segments.as_slice())
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-        let bytes = std::cmp::min(bytes, self.max_consume);
+        let bytes = std::cmp::min(bytes, self.segments.max_consume());
         let (bytes, src_count) = self.src.consume(bytes)?;
         self.src_scanned -= src_count;
 
-        let from = self.segments.partition_point(|x| x.pos < bytes);
-        let to = self.segments.len();
-
-        self.segments.copy_within(from..to, 0);
-        self.segments.truncate(to - from);
-
-        for s in &mut self.segments {
-            s.pos -= bytes;
-        }
-        self.max_consume -= bytes;
-
-        Ok((bytes, from))
+        let count = self.segments.consume(bytes);
+        Ok((bytes, count))
     }
 }
 
diff --git a/src/segment/mapped.rs b/src/segment/mapped.rs
new file mode 100644
index 0000000..de5b294
--- /dev/null
+++ b/src/segment/mapped.rs
@@ -0,0 +1,74 @@
+// @file mapped.rs
+// @brief array of mapped segments, shared by BridgeStream and ExtendStream
+
+use super::Segment;
+use crate::mapper::SegmentMapper;
+
+// mapped segments can come out of order, and can reach beyond the bytes at hand. this array
+// holds them, and exposes ones that are complete and don't have any other segment before them.
+#[derive(Default)]
+pub struct MappedSegments {
+    segments: Vec<Segment>, // sorted, clipped only at the head
+    exposed: usize,         // #segments at the head of the array that are visible
+    max_consume: usize,
+}
+
+impl MappedSegments {
+    pub fn push(&mut self, mapper: &SegmentMapper, src: &[isize; 2]) {
+        let (start, end) = mapper.evaluate(src, src);
+        let start = start.max(0) as usize;
+        let end = end.max(0) as usize;
+
+        if start < end {
+            self.segments.push((start..end).into());
+        }
+    }
+
+    // `limit` is the minimum start position of the segments that are not pushed yet.
+    // returns (#segments, max_consume)
+    pub fn update(&mut self, is_eof: bool, bytes: usize, limit: usize) -> (usize, usize) {
+        if is_eof {
+            self.segments.retain(|x| x.pos < bytes);
+            for s in &mut self.segments {
+                s.len = std::cmp::min(s.len, bytes - s.pos);
+            }
+        }
+        self.segments.sort_by_key(|x| (x.pos, x.len));
+
+        if is_eof {
+            self.max_consume = bytes;
+            self.exposed = self.segments.len();
+        } else {
+            let incomplete = self.segments.iter().find(|x| x.tail() > bytes);
+            let limit = std::cmp::min(limit, bytes);
+            self.max_consume = std::cmp::min(limit, incomplete.map_or(limit, |x| x.pos));
+            self.exposed = self.segments.partition_point(|x| x.pos < self.max_consume);
+        }
+        (self.exposed, self.max_consume)
+    }
+
+    pub fn max_consume(&self) -> usize {
+        self.max_consume
+    }
+
+    pub fn as_slice(&self) -> &[Segment] {
+        &self.segments[..self.exposed]
+    }
+
+    // returns #segments consumed
+    pub fn consume(&mut self, bytes: usize) -> usize {
+        let from = self.segments.partition_point(|x| x.pos < bytes);
+        debug_assert!(from <= self.exposed);
+
+        self.segments.drain(..from);
+        for s in &mut self.segments {
+            s.pos -= bytes;
+        }
+        self.exposed -= from;
+        self.max_consume -= bytes;
+
+        from
+    }
+}
+
+// end of mapped.rs
diff --git a/src/segment/mod.rs b/src/segment/mod.rs
index 9bd0c73..84d6e2a 100644
--- a/src/segment/mod.rs
+++ b/src/segment/mod.rs
@@ -7,6 +7,7 @@ mod exact;
 mod extend;
 mod filter;
 mod guided;
+mod mapped;
 mod merge;
 mod range;
 mod regex;
-- 
2.43.0


From 77781a2545624fc94e103a0a39412688bf713cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 20/61] fix: --lines and --slice end the stream neither before
 the last slice nor for the stages that need the rest

--lines also sorted and deduplicated the slices that were left at the end
of the stream.
---
 src/pipeline.rs       |  7 +++++--
 src/segment/filter.rs | 35 +++++++++++++++++++++++------------
 src/segment/range.rs  | 25 ++++++++++++++++++-------
 3 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 2539604..e7c31a7 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -357,6 +357,9 @@ impl Pipeline {
             next => return Err(anyhow!("unallowed node {:?} found (internal error)", next)),
         };
 
+        // slicers and filters must not end the stream at the last segment if the rest is needed
+        let keep_tail = self.nodes.iter().any(|x| matches!(x, Tee | Bridge(_) | Extend(_)));
+
         // internal nodes
         for next in &self.nodes[1..] {
             (cache, node) = match (next, node) {
@@ -386,7 +389,7 @@ impl Pipeline {
                     (cache, NodeInstance::Segment(next))
                 }
                 (Slice(exprs), NodeInstance::Byte(prev)) => {
-                    let next = Box::new(RangeSlicer::new(prev, exprs)?);
+                    let next = Box::new(RangeSlicer::new(prev, exprs)?.keep_tail(keep_tail));
                     (cache, NodeInstance::Segment(next))
                 }
                 (Guide(file), NodeInstance::Byte(prev)) => {
@@ -414,7 +417,7 @@ impl Pipeline {
                     (cache, NodeInstance::Segment(next))
                 }
                 (Lines(exprs), NodeInstance::Segment(prev)) => {
-                    let next = Box::new(FilterStream::new(prev, exprs)?);
+                    let next = Box::new(FilterStream::new(prev, exprs)?.keep_tail(keep_tail));
                     (cache, NodeInstance::Segment(next))
                 }
                 (Scatter(file), NodeInstance::Segment(prev)) => {
diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index 7c7ddae..ea0f48c 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -101,11 +101,6 @@ impl Cutter {
             }
         }
 
-        if is_eof {
-            v.sort_by_key(|x| (x.pos, x.len));
-            v.dedup();
-        }
-
         let scanned = std::cmp::max(scan_upto, scanned);
         Ok(scanned)
     }
@@ -118,6 +113,8 @@ pub struct FilterStream {
     max_consume: usize,  // in #bytes
     segments: Vec<Segment>,
     cutter: Cutter,
+    keep_tail: bool, // don't end the stream at the end of the last segment
+    is_closed: bool, // the stream ended at the end of the last segment
 }
 
 impl FilterStream {
@@ -129,8 +126,16 @@ impl FilterStream {
             max_consume: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
+            keep_tail: false,
+            is_closed: false,
         })
     }
+
+    // for the consumers that need the stream after the last segment
+    pub fn keep_tail(mut self, keep_tail: bool) -> Self {
+        self.keep_tail = keep_tail;
+        self
+    }
 }
 
 impl SegmentStream for FilterStream {
@@ -143,14 +148,20 @@ impl SegmentStream for FilterStream {
             .cutter
             .accumulate(self.src_scanned, self.src_consumed, is_eof, count, segments, &mut self.segments)?;
 
-        let (is_eof, bytes) = if self.cutter.is_empty() {
-            let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
-            (true, bytes)
-        } else {
-            (is_eof, bytes)
-        };
-
         self.src_scanned = scanned;
+
+        // when all the filters are done the stream ends at the end of the last segment
+        if self.cutter.is_empty() && !self.keep_tail && !self.is_closed && !is_eof {
+            let tail = self.segments.iter().map(|x| x.tail()).max().unwrap_or(0);
+            if tail <= max_consume {
+                self.is_closed = true;
+                self.max_consume = tail;
+            }
+        }
+        if self.is_closed {
+            return Ok((true, self.max_consume, self.segments.len(), self.max_consume));
+        }
+
         self.max_consume = if is_eof {
             bytes
         } else if scanned >= segments.len() {
diff --git a/src/segment/range.rs b/src/segment/range.rs
index d6f9325..4bcdd74 100644
--- a/src/segment/range.rs
+++ b/src/segment/range.rs
@@ -105,6 +105,8 @@ pub struct RangeSlicer {
     max_consume: usize,  // in #bytes
     segments: Vec<Segment>,
     cutter: Cutter,
+    keep_tail: bool, // don't end the stream at the end of the last segment
+    is_closed: bool, // the stream ended at the end of the last segment
 }
 
 impl RangeSlicer {
@@ -115,8 +117,16 @@ impl RangeSlicer {
             max_consume: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
+            keep_tail: false,
+            is_closed: false,
         })
     }
+
+    // for the consumers that need the stream after the last segment
+    pub fn keep_tail(mut self, keep_tail: bool) -> Self {
+        self.keep_tail = keep_tail;
+        self
+    }
 }
 
 impl SegmentStream for RangeSlicer {
@@ -124,13 +134,14 @@ impl SegmentStream for RangeSlicer {
         let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;
         let max_consume = self.cutter.accumulate(self.src_consumed, is_eof, bytes, &mut self.segments)?;
 
-        let (is_eof, bytes, max_consume) = if self.cutter.is_empty() {
-            let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
-            let max_consume = std::cmp::min(bytes, max_consume);
-            (true, bytes, max_consume)
-        } else {
-            (is_eof, bytes, max_consume)
-        };
+        // when all the ranges are done the stream ends at the end of the last segment
+        if self.cutter.is_empty() && !self.keep_tail && !self.is_closed && !is_eof {
+            self.is_closed = true;
+            self.max_consume = self.segments.iter().map(|x| x.tail()).max().unwrap_or(0);
+        }
+        if self.is_closed {
+            return Ok((true, self.max_consume, self.segments.len(), self.max_consume));
+        }
         self.max_consume = max_consume;
 
         Ok((is_eof, bytes, self.segments.len(), max_consume))
-- 
2.43.0


From 04ead2875acf215c82dc83cbfb5a3f90ca0facdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 21/61] fix: --merge doesn't allow consuming beyond what the
 source allows

---
 src/segment/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/segment/merge.rs b/src/segment/merge.rs
index e142127..73719c9 100644
--- a/src/segment/merge.rs
+++ b/src/segment/merge.rs
@@ -139,7 +139,7 @@ impl MergeStream {
             return;
         }
         if max_consume <= self.acc.furthest_margable_pos() {
-            self.max_consume = self.acc.start;
+            self.max_consume = std::cmp::min(self.acc.start, max_consume);
             return;
         }
 
-- 
2.43.0


From f6ab7ac04a82729f26b34b60ebcc335dc1227ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:03 +0000
Subject: [PATCH 22/61] fix: make --inplace leave the old or the new file, and
 nothing else

---
 src/main.rs | 72 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 62 insertions(+), 10 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 18c18af..76c3aa3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -18,8 +18,8 @@ mod text;
 
 use anyhow::{anyhow, Context, Result};
 use clap::{ColorChoice, CommandFactory, FromArgMatches, Parser};
-use std::fs::File;
-use std::io::{IsTerminal, Read, Write};
+use std::fs::{File, OpenOptions};
+use std::io::{ErrorKind, IsTerminal, Read, Write};
 use std::process::{Child, Stdio};
 
 use byte::ByteStream;
@@ -188,13 +188,12 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         for input in inputs.windows(1) {
             let sources = build_sources(input)?;
 
-            let tmpfile = format!("{}.tmp", &input[0]);
-            let drain = Box::new(File::create(&tmpfile)?);
+            let mut drain = InplaceDrain::new(&input[0])?;
 
             let stream = pipeline.spawn_stream(sources)?;
-            consume_stream(stream, drain)?;
+            consume_stream(stream, &mut drain.file)?;
 
-            std::fs::rename(&tmpfile, &input[0])?;
+            drain.commit()?;
         }
     } else {
         let inputs = if args.inputs.is_empty() {
@@ -204,10 +203,11 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         };
 
         let sources = build_sources(&inputs)?;
-        let (child, drain) = build_drain(&args.pager)?;
+        let (child, mut drain) = build_drain(&args.pager)?;
 
         let stream = pipeline.spawn_stream(sources)?;
-        consume_stream(stream, drain)?;
+        consume_stream(stream, &mut drain)?;
+        drop(drain); // tells the end to the child
 
         if let Some(mut child) = child {
             let _ = child.wait();
@@ -244,9 +244,61 @@ fn build_drain(pager: &Option<String>) -> Result<(Option<Child>, Box<dyn Write>)
     Ok((Some(child), Box::new(input)))
 }
 
-fn consume_stream(stream: Box<dyn ByteStream>, drain: Box<dyn Write>) -> Result<()> {
+// output of --inplace; it takes the place of the original file on `commit`, or is removed otherwise
+struct InplaceDrain {
+    file: File,
+    tmpfile: String,
+    dst: String,
+}
+
+impl InplaceDrain {
+    fn new(dst: &str) -> Result<Self> {
+        let permissions = std::fs::metadata(dst)?.permissions();
+
+        // never overwrite other files
+        let mut tmpfile = format!("{dst}.tmp");
+        let mut retry = 0;
+        let file = loop {
+            match OpenOptions::new().write(true).create_new(true).open(&tmpfile) {
+                Err(e) if e.kind() == ErrorKind::AlreadyExists => {
+                    retry += 1;
+                    tmpfile = format!("{dst}.{retry}.tmp");
+                }
+                file => break file?,
+            }
+        };
+
+        let drain = InplaceDrain {
+            file,
+            tmpfile,
+            dst: dst.to_string(),
+        };
+        drain.file.set_permissions(permissions)?;
+
+        Ok(drain)
+    }
+
+    fn commit(mut self) -> Result<()> {
+        // the content must reach the disk before the name does
+        self.file.sync_all()?;
+
+        std::fs::rename(&self.tmpfile, &self.dst)?;
+        self.tmpfile.clear();
+
+        Ok(())
+    }
+}
+
+impl Drop for InplaceDrain {
+    fn drop(&mut self) {
+        if !self.tmpfile.is_empty() {
+            let _ = std::fs::remove_file(&self.tmpfile);
+        }
+    }
+}
+
+fn consume_stream(stream: Box<dyn ByteStream>, drain: &mut dyn Write) -> Result<()> {
     let mut stream = stream;
-    let mut drain = drain;
 
     loop {
         let (is_eof, bytes) = stream.fill_buf(BLOCK_SIZE)?;
-- 
2.43.0


From 16b5da91b05858189bf0feada2d5893d7bbe31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 23/61] fix: wait for the pager also when the output fails

---
 src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 76c3aa3..8e47d7a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -205,13 +205,14 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         let sources = build_sources(&inputs)?;
         let (child, mut drain) = build_drain(&args.pager)?;
 
-        let stream = pipeline.spawn_stream(sources)?;
-        consume_stream(stream, &mut drain)?;
-        drop(drain); // tells the end to the child
+        let result = pipeline.spawn_stream(sources).and_then(|stream| consume_stream(stream, &mut drain));
+        drop(drain); // tells the end to the pager
 
+        // never leave the pager behind, even on an error
         if let Some(mut child) = child {
             let _ = child.wait();
         }
+        result?;
     }
 
     Ok(())
-- 
2.43.0


From 51695d8be6ab64f23a0a85fdcb724d2b2a2af517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 24/61] fix: --cut doesn't hold the whole stream after the
 start of an open-ended range

---
 src/byte/cut.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/byte/cut.rs b/src/byte/cut.rs
index a2aee69..8c7b47e 100644
--- a/src/byte/cut.rs
+++ b/src/byte/cut.rs
@@ -62,15 +62,14 @@ impl Cutter {
             self.filters.sort_by_key(|x| Reverse(x.sort_key()));
         }
 
-        // if not reached EOF, we can forward the pointer up to the trans_offset
-        // (body -> tail transition offset) at most. we use `clip` for clipping
-        // the ranges in the loop below.
-        let scan_upto = if is_eof {
-            bytes
+        // if not reached EOF, the bytes in the tail margin are left. the rest is scanned with the filters
+        // up to the trans_offset (body -> tail transition offset), and is entirely covered after that.
+        let (scan_upto, trans_offset) = if is_eof {
+            (bytes, bytes)
         } else {
-            let bytes = bytes.saturating_sub(self.tail_margin);
-            let clip = self.trans_offset.saturating_sub(offset);
-            std::cmp::min(bytes, clip)
+            let scan_upto = bytes.saturating_sub(self.tail_margin);
+            let trans_offset = self.trans_offset.saturating_sub(offset);
+            (scan_upto, std::cmp::min(scan_upto, trans_offset))
         };
 
         let mut last_scanned = 0;
@@ -85,18 +84,20 @@ impl Cutter {
 
             // becomes an empty range if the whole `start..end` is after the clipping offset
             // (i.e., the range is completely out of the current window)
-            let start = std::cmp::min(start, scan_upto);
-            let end = std::cmp::min(end, scan_upto);
+            let start = std::cmp::min(start, trans_offset);
+            let end = std::cmp::min(end, trans_offset);
 
             v.extend_from_slice(&stream[start..end]);
             last_scanned = end;
 
             // if not all consumed, the remainders are postponed to the next call
-            if !is_eof && range.end > scan_upto {
+            if !is_eof && range.end > trans_offset {
                 self.filters.push(filter);
                 break;
             }
         }
+
+        v.extend_from_slice(&stream[trans_offset..scan_upto]);
         Ok(scan_upto)
     }
 }
-- 
2.43.0


From ebc7d7c697c173b76f5e6a0faafd64400d68a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 25/61] fix: --walk doesn't extend the buffer up to the end of
 the stream

---
 src/segment/walk.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index a1051cf..fcc6022 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -151,7 +151,9 @@ impl SegmentStream for WalkSlicer {
         let request = std::cmp::max(BLOCK_SIZE, 2 * self.pos);
         let mut buffered = self.src.fill_buf(request)?;
 
-        while self.pos < buffered.1 {
+        // extend the buffer at most for the last one, so that the chunks don't chain up to the end of the stream
+        let upto = buffered.1;
+        while self.pos < if buffered.0 { buffered.1 } else { upto } {
             // this extends the buffer when the expression refers to the bytes not in the buffer
             let chunk_len = self.calc_next_chunk_len(&mut buffered);
 
-- 
2.43.0


From 49ca25cebb369b1b69fa054f082ac09bd93d1e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 26/61] fix: --lines doesn't hold all slices after the start of
 an open-ended range

---
 src/segment/filter.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index ea0f48c..4dd4b2c 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -65,15 +65,14 @@ impl Cutter {
             self.filters.sort_by_key(|x| Reverse(x.sort_key()));
         }
 
-        // if not reached EOF, we can forward the pointer up to the trans_offset
-        // (body -> tail transition offset) at most. we use `clip` for clipping
-        // the ranges in the loop below.
-        let scan_upto = if is_eof {
-            count
+        // if not reached EOF, the segments in the tail margin are left. the rest is scanned with the filters
+        // up to the trans_offset (body -> tail transition offset), and is entirely left after that.
+        let (scan_upto, trans_offset) = if is_eof {
+            (count, count)
         } else {
-            let count = count.saturating_sub(self.tail_margin);
-            let clip = self.trans_offset.saturating_sub(offset);
-            std::cmp::min(count, clip)
+            let scan_upto = count.saturating_sub(self.tail_margin);
+            let trans_offset = self.trans_offset.saturating_sub(offset);
+            (scan_upto, std::cmp::min(scan_upto, trans_offset))
         };
 
         let mut last_scanned = scanned;
@@ -88,20 +87,22 @@ impl Cutter {
 
             // becomes an empty range if the whole `start..end` is after the clipping offset
             // (i.e., the range is completely out of the current window)
-            let start = std::cmp::min(start, scan_upto);
-            let end = std::cmp::min(end, scan_upto);
+            let start = std::cmp::min(start, trans_offset);
+            let end = std::cmp::min(end, trans_offset);
 
             v.extend_from_slice(&segments[start..end]);
             last_scanned = end;
 
             // if not all consumed, the remainders are postponed to the next call
-            if !is_eof && range.end > scan_upto {
+            if !is_eof && range.end > trans_offset {
                 self.filters.push(filter);
                 break;
             }
         }
 
+        let from = std::cmp::max(trans_offset, scanned);
         let scanned = std::cmp::max(scan_upto, scanned);
+        v.extend_from_slice(&segments[from..scanned]);
         Ok(scanned)
     }
 }
-- 
2.43.0


From 3d22b18a1e57fe45b1e67e84d081e2daa49f0226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 27/61] fix: don't extend the buffer for every line of a text
 input

---
 src/text/parser/mod.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 271cfe0..c4bcfe9 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -339,6 +339,7 @@ fn test_line_cache() {
 
 pub struct TextParser {
     src: Box<dyn ByteStream>,
+    buffered: (bool, usize), // EOF flag and #bytes in the buffer of `src`
 
     // parser for non-binary streams; bypassed for binary streams (though the functions are valid)
     parse_offset: ParseSingle,
@@ -371,6 +372,7 @@ impl TextParser {
 
         TextParser {
             src,
+            buffered: (false, 0),
             parse_offset,
             parse_span,
             parse_body,
@@ -382,6 +384,16 @@ impl TextParser {
         self.cache.format(include_prev)
     }
 
+    fn fill_buf(&mut self) -> Result<(bool, usize)> {
+        self.buffered = self.src.fill_buf(BLOCK_SIZE)?;
+        Ok(self.buffered)
+    }
+
+    fn consume(&mut self, bytes: usize) {
+        self.src.consume(bytes);
+        self.buffered.1 -= bytes;
+    }
+
     fn read_head(&self, stream: &[u8]) -> Option<(usize, usize, usize)> {
         let (offset, fwd1) = (self.parse_offset)(stream)?;
         if stream[fwd1] != b' ' {
@@ -441,7 +453,7 @@ impl TextParser {
     }
 
     fn read_line_continued(&mut self, offset: usize, span: usize, is_in_tail: bool, buf: &mut Vec<u8>) -> Result<Option<(usize, usize)>> {
-        let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
+        let (is_eof, len) = self.fill_buf()?;
         if is_eof && len == 0 {
             return Ok(Some((offset, span)));
         }
@@ -461,7 +473,7 @@ impl TextParser {
             }
             if eol_found {
                 rem_len = rem_len.saturating_sub(1);
-                self.src.consume(len - rem_len);
+                self.consume(len - rem_len);
                 return Ok(Some((offset, span)));
             }
 
@@ -469,16 +481,17 @@ impl TextParser {
             stream = rem_stream;
         }
 
-        self.src.consume(len - rem_len);
+        self.consume(len - rem_len);
         self.read_line_continued(offset, span, is_in_tail, buf)
     }
 
     pub fn read_line(&mut self, buf: &mut Vec<u8>) -> Result<Option<(usize, usize)>> {
-        let (mut is_eof, mut len) = self.src.fill_buf(BLOCK_SIZE)?;
+        // use up the buffer first, as `fill_buf` always extends it
+        let (mut is_eof, mut len) = self.buffered;
 
         // the header must be parsed at once, so wait for the whole of it
         while !is_eof && len < MAX_HEAD_LEN && !self.src.as_slice()[..len].contains(&b'\n') {
-            (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
+            (is_eof, len) = self.fill_buf()?;
         }
         if is_eof && len == 0 {
             return Ok(None);
@@ -501,7 +514,7 @@ impl TextParser {
 
         if (delims & 0xff) == b'\n' as u32 {
             let fwd = std::cmp::min(fwd + 1, len);
-            self.src.consume(fwd);
+            self.consume(fwd);
             return Ok(Some((offset, span)));
         }
         // 0x207c20 == " | "
@@ -528,7 +541,7 @@ impl TextParser {
             }
             if eol_found {
                 rem_len = rem_len.saturating_sub(1);
-                self.src.consume(len - rem_len);
+                self.consume(len - rem_len);
                 return Ok(Some((offset, span)));
             }
 
@@ -536,7 +549,7 @@ impl TextParser {
             stream = rem_stream;
         }
 
-        self.src.consume(len - rem_len);
+        self.consume(len - rem_len);
         self.read_line_continued(offset, span, is_in_tail, buf)
     }
 }
-- 
2.43.0


From 7803a199ccb772378950b8389418b317f19db123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 28/61] fix: --patch-back neither loses bytes nor hides
 failures

The reader of the cached stream took 'not cached yet' for the end of the stream, and left
the cursor of the cache where the writer then overwrote it. Slices carried over to the next
block were sent to the command twice. A command that stops reading its input killed the
thread that fills the cache, and a command that prints before it reads everything could
block it forever. Errors in the thread, failures of the cache, and the exit status of the
command were ignored or panicked.
---
 src/byte/tee.rs    |  98 +++++++++++++++++++++----
 src/drain/patch.rs | 178 ++++++++++++++++++++++++++++++++-------------
 src/pipeline.rs    |   4 +-
 3 files changed, 210 insertions(+), 70 deletions(-)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 10ef49f..c1893fb 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -6,45 +6,96 @@ use crate::filluninit::FillUninit;
 use crate::params::BLOCK_SIZE;
 use crate::streambuf::StreamBuf;
 use anyhow::Result;
-use std::io::{Read, Seek, SeekFrom, Write};
-use std::sync::{Arc, Mutex};
+use std::io::{Error, ErrorKind, Read, Seek, SeekFrom, Write};
+use std::sync::{Arc, Condvar, Mutex};
 use tempfile::SpooledTempFile;
 
 struct TempFile {
     clear_eof: bool, // semaphore with a saturation counter
+    is_closed: bool, // true if no more bytes will be appended
     file: SpooledTempFile,
+    len: usize,
+    error: Option<Error>, // failure on the writer side, taken by the reader
 }
 
+impl TempFile {
+    fn append(&mut self, stream: &[u8]) -> std::io::Result<()> {
+        // the cursor is shared with the reader
+        self.file.seek(SeekFrom::Start(self.len as u64))?;
+        self.file.write_all(stream)?;
+        self.len += stream.len();
+        Ok(())
+    }
+
+    fn read_at(&mut self, offset: usize, buf: &mut [u8]) -> std::io::Result<usize> {
+        self.file.seek(SeekFrom::Start(offset as u64))?;
+        loop {
+            match self.file.read(buf) {
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                Ok(0) => return Err(ErrorKind::UnexpectedEof.into()),
+                x => return x,
+            }
+        }
+    }
+}
+
+type Cache = Arc<(Mutex<TempFile>, Condvar)>;
+
 pub struct TeeStream {
     src: Box<dyn ByteStream>,
-    cache: Arc<Mutex<TempFile>>,
+    cache: Cache,
 }
 
 pub struct TeeStreamReader {
-    cache: Arc<Mutex<TempFile>>,
+    cache: Cache,
     buf: StreamBuf,
     offset: usize,
+    wait: bool,
 }
 
 impl TeeStream {
     pub fn new(src: Box<dyn ByteStream>) -> Self {
         let tempfile = TempFile {
             clear_eof: false,
+            is_closed: false,
             file: SpooledTempFile::new(128 * BLOCK_SIZE),
+            len: 0,
+            error: None,
         };
 
         TeeStream {
             src,
-            cache: Arc::new(Mutex::new(tempfile)),
+            cache: Arc::new((Mutex::new(tempfile), Condvar::new())),
         }
     }
 
+    // the reader regards the end of the bytes that have been consumed so far as EOF
+    #[allow(dead_code)]
     pub fn spawn_reader(&self) -> TeeStreamReader {
+        self.spawn_reader_impl(false)
+    }
+
+    // the reader waits for the bytes to be consumed (in another thread) until `TeeStream` is dropped
+    pub fn spawn_blocking_reader(&self) -> TeeStreamReader {
+        self.spawn_reader_impl(true)
+    }
+
+    fn spawn_reader_impl(&self, wait: bool) -> TeeStreamReader {
         TeeStreamReader {
             cache: Arc::clone(&self.cache),
             buf: StreamBuf::new(),
             offset: 0,
+            wait,
+        }
+    }
+}
+
+impl Drop for TeeStream {
+    fn drop(&mut self) {
+        if let Ok(mut cache) = self.cache.0.lock() {
+            cache.is_closed = true;
         }
+        self.cache.1.notify_all();
     }
 }
 
@@ -61,13 +112,16 @@ impl ByteStream for TeeStream {
         let stream = self.src.as_slice();
         debug_assert!(stream.len() >= bytes);
 
-        match self.cache.lock() {
+        match self.cache.0.lock() {
             Ok(mut cache) => {
-                cache.file.write_all(&stream[..bytes]).unwrap();
+                if let Err(e) = cache.append(&stream[..bytes]) {
+                    cache.error = Some(e);
+                }
                 cache.clear_eof = true; // increment semaphore
             }
             _ => panic!("failed to lock cache."),
         }
+        self.cache.1.notify_all();
 
         self.src.consume(bytes);
     }
@@ -75,23 +129,35 @@ impl ByteStream for TeeStream {
 
 impl ByteStream for TeeStreamReader {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
-        match self.cache.lock() {
+        match self.cache.0.lock() {
             Ok(mut cache) => {
                 if cache.clear_eof {
                     self.buf.clear_eof();
                     cache.clear_eof = false; // decrement semaphore
                 }
-                self.buf.fill_buf(request, |_, buf| {
-                    cache.file.seek(SeekFrom::Start(self.offset as u64)).unwrap();
-
-                    let len = buf.fill_uninit(BLOCK_SIZE, |buf| Ok(cache.file.read(buf)?))?;
-                    self.offset += len;
-
-                    Ok(len == 0)
-                })
             }
             _ => panic!("failed to lock cache."),
         }
+
+        self.buf.fill_buf(request, |_, buf| {
+            let is_ready = |x: &TempFile| x.len > self.offset || x.is_closed || x.error.is_some();
+
+            let cache = self.cache.0.lock().ok();
+            let cache = cache.and_then(|x| self.cache.1.wait_while(x, |x| self.wait && !is_ready(x)).ok());
+            let mut cache = cache.expect("failed to lock cache.");
+
+            if let Some(e) = cache.error.take() {
+                return Err(e.into());
+            }
+            if cache.len <= self.offset {
+                return Ok(true);
+            }
+
+            let len = buf.fill_uninit(BLOCK_SIZE, |buf| Ok(cache.read_at(self.offset, buf)?))?;
+            self.offset += len;
+
+            Ok(false)
+        })
     }
 
     fn as_slice(&self) -> &[u8] {
diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 7f4c767..b531fa8 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -1,12 +1,12 @@
 // @file patch.rs
 // @author Hajime Suzuki
 
-use crate::byte::{ByteStream, PatchStream, RawStream};
+use crate::byte::{ByteStream, PatchStream, RawStream, TeeStream};
 use crate::params::BLOCK_SIZE;
 use crate::segment::SegmentStream;
 use crate::text::{InoutFormat, TextFormatter};
-use anyhow::Result;
-use std::io::Write;
+use anyhow::{anyhow, Context, Result};
+use std::io::{ErrorKind, Write};
 use std::process::{Child, ChildStdin, Command, Stdio};
 use std::thread::JoinHandle;
 
@@ -19,14 +19,14 @@ struct BashPipeWriter {
 }
 
 impl BashPipe {
-    fn new(command: &str) -> Self {
+    fn new(command: &str) -> Result<Self> {
         let child = Command::new("bash")
             .args(["-c", command])
             .stdin(Stdio::piped())
             .stdout(Stdio::piped())
             .spawn()
-            .unwrap();
-        BashPipe { child }
+            .context("failed to start bash")?;
+        Ok(BashPipe { child })
     }
 
     fn spawn_reader(&mut self) -> RawStream {
@@ -38,12 +38,26 @@ impl BashPipe {
         let input = self.child.stdin.take().unwrap();
         BashPipeWriter { input: Some(input) }
     }
+
+    fn wait(&mut self) -> Result<()> {
+        let status = self.child.wait()?;
+        if !status.success() {
+            return Err(anyhow!("the command for --patch-back failed ({})", status));
+        }
+        Ok(())
+    }
 }
 
 impl BashPipeWriter {
-    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-        self.input.as_ref().unwrap().write_all(buf)?;
-        Ok(buf.len())
+    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
+        if let Some(input) = &mut self.input {
+            match input.write_all(buf) {
+                // the command doesn't need the rest
+                Err(e) if e.kind() == ErrorKind::BrokenPipe => self.close(),
+                x => x?,
+            }
+        }
+        Ok(())
     }
 
     fn close(&mut self) {
@@ -51,69 +65,129 @@ impl BashPipeWriter {
     }
 }
 
+struct Worker {
+    thread: Option<JoinHandle<Result<()>>>,
+}
+
+impl Worker {
+    fn new<F>(f: F) -> Result<Self>
+    where
+        F: FnOnce() -> Result<()> + Send + 'static,
+    {
+        let thread = std::thread::Builder::new().spawn(f)?;
+        Ok(Worker { thread: Some(thread) })
+    }
+
+    fn join(&mut self) -> Result<()> {
+        match self.thread.take().map(|x| x.join()) {
+            Some(Ok(x)) => x,
+            Some(Err(_)) => Err(anyhow!("a thread for --patch-back panicked")),
+            None => Ok(()),
+        }
+    }
+}
+
+// the stream ends only after the thread that feeds it has finished without an error
+struct WorkerStream {
+    src: Box<dyn ByteStream>,
+    worker: Worker,
+}
+
+impl ByteStream for WorkerStream {
+    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        let (is_eof, bytes) = self.src.fill_buf(request)?;
+        if is_eof {
+            self.worker.join()?;
+        }
+        Ok((is_eof, bytes))
+    }
+
+    fn as_slice(&self) -> &[u8] {
+        self.src.as_slice()
+    }
+
+    fn consume(&mut self, amount: usize) {
+        self.src.consume(amount)
+    }
+}
+
 pub struct PatchDrain {
     patch: PatchStream,
-    prev_bytes: usize,
     pipe: BashPipe,
-    thread: Option<JoinHandle<()>>,
 }
 
 impl PatchDrain {
-    pub fn new(patch: Box<dyn SegmentStream>, original: Box<dyn ByteStream>, command: &str, format: &InoutFormat) -> Self {
-        let mut pipe = BashPipe::new(command);
-        let mut writer = pipe.spawn_writer();
+    pub fn new(patch: Box<dyn SegmentStream>, original: Box<dyn ByteStream>, command: &str, format: &InoutFormat) -> Result<Self> {
+        let mut pipe = BashPipe::new(command)?;
+        let writer = pipe.spawn_writer();
         let formatter = TextFormatter::new(format, (0, 0));
 
-        let thread = std::thread::spawn(move || {
-            let mut patch = patch;
-            let mut buf = Vec::new();
-            let mut offset = 0;
-
-            loop {
-                let (is_eof, bytes, _, max_consume) = patch.fill_segment_buf().unwrap();
-                if is_eof && bytes == 0 {
-                    break;
-                }
-
-                let (stream, segments) = patch.as_slices();
-                formatter.format_segments(offset, stream, segments, &mut buf);
-                offset += patch.consume(max_consume).unwrap().0;
-
-                if buf.len() >= BLOCK_SIZE {
-                    writer.write_all(&buf).unwrap();
-                    buf.clear();
-                }
-            }
+        let worker = Worker::new(move || feed_segments(patch, formatter, writer))?;
+        let original = WorkerStream { src: original, worker };
 
-            writer.write_all(&buf).unwrap();
-            writer.close();
-        });
+        // receive the output of the command independently of the progress of the original stream,
+        // as the command might not take the input until all of its output is received
+        let mut output = TeeStream::new(Box::new(pipe.spawn_reader()));
+        let reader = output.spawn_blocking_reader();
 
-        let reader = pipe.spawn_reader();
-        let patch = PatchStream::new(original, Box::new(reader), format);
+        let worker = Worker::new(move || loop {
+            let (is_eof, bytes) = output.fill_buf(BLOCK_SIZE)?;
+            if is_eof && bytes == 0 {
+                return Ok(());
+            }
+            output.consume(bytes);
+        })?;
+        let reader = WorkerStream {
+            src: Box::new(reader),
+            worker,
+        };
+
+        let patch = PatchStream::new(Box::new(original), Box::new(reader), format);
+        Ok(PatchDrain { patch, pipe })
+    }
+}
 
-        PatchDrain {
-            patch,
-            prev_bytes: 0,
-            pipe,
-            thread: Some(thread),
+fn feed_segments(patch: Box<dyn SegmentStream>, formatter: TextFormatter, writer: BashPipeWriter) -> Result<()> {
+    let mut patch = patch;
+    let mut writer = writer;
+    let mut buf = Vec::new();
+    let mut offset = 0;
+    let mut skip = 0; // #segments that have been formatted but not consumed yet
+
+    // note: it goes on to the end even if the command doesn't take the segments any more
+    // because the original stream comes out of here as well
+    loop {
+        let (is_eof, bytes, count, max_consume) = patch.fill_segment_buf()?;
+
+        let (stream, segments) = patch.as_slices();
+        formatter.format_segments(offset, stream, &segments[skip..count], &mut buf);
+        skip = count;
+
+        let (consumed, count) = patch.consume(max_consume)?;
+        offset += consumed;
+        skip -= count;
+
+        let is_end = is_eof && bytes == 0;
+        if is_end || buf.len() >= BLOCK_SIZE {
+            writer.write_all(&buf)?;
+            buf.clear();
+        }
+        if is_end {
+            break;
         }
     }
+
+    writer.close();
+    Ok(())
 }
 
 impl ByteStream for PatchDrain {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         let (is_eof, bytes) = self.patch.fill_buf(request)?;
 
-        if is_eof && bytes == self.prev_bytes {
-            if let Some(thread) = self.thread.take() {
-                thread.join().unwrap();
-            }
-
-            self.pipe.child.wait().unwrap();
+        if is_eof && bytes == 0 {
+            self.pipe.wait()?;
         }
-
-        self.prev_bytes = bytes;
         Ok((is_eof, bytes))
     }
 
diff --git a/src/pipeline.rs b/src/pipeline.rs
index e7c31a7..225367b 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -377,7 +377,7 @@ impl Pipeline {
                 }
                 (Tee, NodeInstance::Byte(prev)) => {
                     let next = Box::new(TeeStream::new(prev));
-                    cache = Some(Box::new(next.spawn_reader()));
+                    cache = Some(Box::new(next.spawn_blocking_reader()));
                     (cache, NodeInstance::Byte(next))
                 }
                 (Width(params), NodeInstance::Byte(prev)) => {
@@ -425,7 +425,7 @@ impl Pipeline {
                     (cache, NodeInstance::Byte(next))
                 }
                 (PatchBack(command), NodeInstance::Segment(prev)) => {
-                    let next = Box::new(PatchDrain::new(prev, cache.unwrap(), command, &self.patch_format));
+                    let next = Box::new(PatchDrain::new(prev, cache.unwrap(), command, &self.patch_format)?);
                     (None, NodeInstance::Byte(next))
                 }
                 (next, _) => return Err(anyhow!("unallowed node {:?} found after (internal error)", next)),
-- 
2.43.0


From 7440322f3402f98b9f882b9ce666d037a84d2118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 29/61] fix: --lines doesn't stop in the middle when its last
 slice ends inside one of the source's

---
 src/segment/filter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index 4dd4b2c..8102694 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -181,6 +181,14 @@ impl SegmentStream for FilterStream {
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
         let bytes = std::cmp::min(bytes, self.max_consume);
+        if self.is_closed && bytes == self.max_consume {
+            // nothing follows; the source might not be able to consume up to there
+            let count = self.segments.len();
+            self.segments.clear();
+            self.max_consume = 0;
+            return Ok((bytes, count));
+        }
+
         let (bytes, src_count) = self.src.consume(bytes)?;
         self.src_scanned -= src_count;
         self.src_consumed += src_count;
-- 
2.43.0


From 3dca870e8afd459e3da5bd685c99424356ecb303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 30/61] fix: report malformed records that are not UTF-8
 without undefined behavior

---
 src/text/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index c4bcfe9..e77e513 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -282,7 +282,7 @@ impl LineCache {
             }
 
             v.push('"');
-            v.push_str(unsafe { std::str::from_utf8_unchecked(&input[..len]) });
+            v.push_str(&String::from_utf8_lossy(&input[..len]));
             if len == 32 {
                 v.pop();
                 v.push_str("...");
-- 
2.43.0


From 70ba990551aa8fcb633d2e5d11b2ae0768108f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 31/61] fix: --merge keeps empty slices as they are

---
 src/segment/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/segment/merge.rs b/src/segment/merge.rs
index 73719c9..f363530 100644
--- a/src/segment/merge.rs
+++ b/src/segment/merge.rs
@@ -34,7 +34,7 @@ impl Accumulator {
     fn pop(&mut self) -> Segment {
         let pos = self.start;
         let tail = self.end;
-        debug_assert!(pos < tail);
+        debug_assert!(pos <= tail); // empty slices are kept as they are
 
         // clear the current state
         self.count = 0;
-- 
2.43.0


From 157a687777d0cce69dfd2b710cd79db729a4199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 32/61] fix: wait for the pager when the pipeline panics, too

---
 src/main.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8e47d7a..657aa76 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -203,16 +203,11 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         };
 
         let sources = build_sources(&inputs)?;
-        let (child, mut drain) = build_drain(&args.pager)?;
+        let (_pager, mut drain) = build_drain(&args.pager)?;
 
-        let result = pipeline.spawn_stream(sources).and_then(|stream| consume_stream(stream, &mut drain));
-        drop(drain); // tells the end to the pager
-
-        // never leave the pager behind, even on an error
-        if let Some(mut child) = child {
-            let _ = child.wait();
-        }
-        result?;
+        // the drain is dropped before the pager, which tells the end to it
+        let stream = pipeline.spawn_stream(sources)?;
+        consume_stream(stream, &mut drain)?;
     }
 
     Ok(())
@@ -231,7 +226,18 @@ fn build_sources(files: &[String]) -> Result<Vec<Box<dyn Read + Send>>> {
     Ok(v)
 }
 
-fn build_drain(pager: &Option<String>) -> Result<(Option<Child>, Box<dyn Write>)> {
+// never left behind, even on an error or a panic
+struct Pager {
+    child: Child,
+}
+
+impl Drop for Pager {
+    fn drop(&mut self) {
+        let _ = self.child.wait();
+    }
+}
+
+fn build_drain(pager: &Option<String>) -> Result<(Option<Pager>, Box<dyn Write>)> {
     let pager = pager.clone().or_else(|| std::env::var("PAGER").ok());
     if pager.is_none() && !std::io::stdout().is_terminal() {
         return Ok((None, Box::new(std::io::stdout())));
@@ -242,7 +248,7 @@ fn build_drain(pager: &Option<String>) -> Result<(Option<Child>, Box<dyn Write>)
     let mut child = std::process::Command::new(args[0]).args(&args[1..]).stdin(Stdio::piped()).spawn()?;
 
     let input = child.stdin.take().context("failed to take stdin of the PAGER process")?;
-    Ok((Some(child), Box::new(input)))
+    Ok((Some(Pager { child }), Box::new(input)))
 }
 
 // output of --inplace; it takes the place of the original file on `commit`, or is removed otherwise
-- 
2.43.0


From 524684f02dd93d6e79e7f68cd4e029e0886acdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 33/61] fix: --inplace applies a patch or guide from the
 standard input to every file

---
 src/pipeline.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 225367b..3e89468 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -10,7 +10,8 @@ use crate::text::*;
 use anyhow::{anyhow, Result};
 use clap::Parser;
 
-use std::io::Read;
+use std::cell::RefCell;
+use std::io::{Cursor, Read};
 
 use self::Node::*;
 use self::NodeClass::*;
@@ -198,6 +199,7 @@ pub struct Pipeline {
     out_format: InoutFormat,
     patch_format: InoutFormat,
     nodes: Vec<Node>,
+    stdin: RefCell<Option<Vec<u8>>>, // used by --patch or --guide in the inplace mode
 }
 
 impl Pipeline {
@@ -296,6 +298,7 @@ impl Pipeline {
             out_format,
             patch_format,
             nodes,
+            stdin: RefCell::new(None),
         };
         pipeline.validate()?;
 
@@ -321,7 +324,17 @@ impl Pipeline {
     }
 
     fn open_file(&self, file: &str) -> Result<Box<dyn ByteStream>> {
-        let file: Box<dyn Read + Send> = if file == "-" {
+        let is_stdin = file == "-" || file == "/dev/stdin";
+        let file: Box<dyn Read + Send> = if is_stdin && self.is_inplace() {
+            // every input needs it from the beginning
+            let mut stdin = self.stdin.borrow_mut();
+            if stdin.is_none() {
+                let mut buf = Vec::new();
+                std::io::stdin().read_to_end(&mut buf)?;
+                *stdin = Some(buf);
+            }
+            Box::new(Cursor::new(stdin.clone().unwrap()))
+        } else if file == "-" {
             Box::new(std::io::stdin())
         } else {
             Box::new(std::fs::File::open(file)?)
@@ -445,7 +458,8 @@ mod tests {
     use crate::byte::tester::*;
     use crate::streambuf::StreamBuf;
     use clap::Parser;
-    use std::io::Read;
+    use std::cell::RefCell;
+use std::io::{Cursor, Read};
 
     #[test]
     fn test_pipeline() {
-- 
2.43.0


From 17ce6111ead299555d974a2896f01e3ff0207539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 34/61] fix: --inplace edits a file once even if it's named in
 different ways

---
 src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 657aa76..25766a5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -20,6 +20,7 @@ use anyhow::{anyhow, Context, Result};
 use clap::{ColorChoice, CommandFactory, FromArgMatches, Parser};
 use std::fs::{File, OpenOptions};
 use std::io::{ErrorKind, IsTerminal, Read, Write};
+use std::path::{Component, Path, PathBuf};
 use std::process::{Child, Stdio};
 
 use byte::ByteStream;
@@ -181,9 +182,12 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
             return Err(anyhow!("stdin (\"-\" or \"/dev/stdin\") must not be used with '--inplace'"));
         }
 
+        // "a" and "./a" are the same file
+        let key = |x: &String| -> PathBuf { Path::new(x).components().filter(|x| *x != Component::CurDir).collect() };
+
         let mut inputs = args.inputs;
-        inputs.sort();
-        inputs.dedup();
+        inputs.sort_by_key(key);
+        inputs.dedup_by_key(|x| key(x));
 
         for input in inputs.windows(1) {
             let sources = build_sources(input)?;
-- 
2.43.0


From 93f78eefc7e686f6f047f743337da2326c81b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:14 +0000
Subject: [PATCH 35/61] fix: the padding doesn't take back the bytes it has
 already shown

---
 src/byte/zero.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/byte/zero.rs b/src/byte/zero.rs
index e82acba..03a2330 100644
--- a/src/byte/zero.rs
+++ b/src/byte/zero.rs
@@ -56,7 +56,9 @@ impl ByteStream for ZeroStream {
             return;
         }
         self.offset += amount;
-        self.next_len = std::cmp::min(self.len - self.offset, BLOCK_SIZE);
+        // never take back the bytes that are already shown
+        self.next_len = std::cmp::max(self.next_len - amount, BLOCK_SIZE);
+        self.next_len = std::cmp::min(self.len - self.offset, self.next_len);
     }
 }
 
-- 
2.43.0


From 3fe828c61c68a4c93940691aca03c39b5b0de8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 36/61] fix: read an array in the same way with and without
 SIMD

The vectorized parsers didn't check what follows the 16th column nor the
last one, didn't accept what the scalar one ignores after a blank column,
and went on with the columns of the next chunk after it. The last of them
depended on where the text was split.
---
 src/text/parser/aarch64.rs | 24 +++++++++++++++++-------
 src/text/parser/mod.rs     |  7 ++++---
 src/text/parser/x86_64.rs  | 22 +++++++++++++++-------
 3 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/text/parser/aarch64.rs b/src/text/parser/aarch64.rs
index c1612d2..fea6a8f 100644
--- a/src/text/parser/aarch64.rs
+++ b/src/text/parser/aarch64.rs
@@ -149,8 +149,9 @@ pub fn parse_hex_single_neon(src: &[u8]) -> Option<(u64, usize)> {
     unsafe { parse_hex_single_impl(vld2q_u8(src)) }
 }
 
-unsafe fn parse_multi(x: uint8x16x3_t, elems: usize, v: &mut [u8]) -> Option<usize> {
-    debug_assert!(elems <= 16);
+unsafe fn parse_multi(x: uint8x16x3_t, len: usize, v: &mut [u8]) -> Option<usize> {
+    debug_assert!(len <= 48);
+    let elems = (len + 1) / 3;
 
     let (xh, vh, sh) = to_hex(x.0);
     let (xl, vl, sl) = to_hex(x.1);
@@ -169,17 +170,21 @@ unsafe fn parse_multi(x: uint8x16x3_t, elems: usize, v: &mut [u8]) -> Option<usi
     // "0  " ng
     // " 0 " ng
     // "00 " ok
-    let is_space = (to_mask(vceqq_u8(x.2, vdupq_n_u8(b' '))) >> 1) | 0x8000000000000000;
+    let is_space = to_mask(vceqq_u8(x.2, vdupq_n_u8(b' ')));
+    let is_space = is_space | (u64::MAX >> (len / 3)); // the last column may not have its separator
+
     let is_null = to_mask(vandq_u8(sh, sl));
     let is_valid = to_mask(vandq_u8(vh, vl));
-    let mask = 0xffffffffffffffff >> elems;
 
-    if (((is_valid | is_null) & is_space) | mask) != 0xffffffffffffffff {
+    // the array ends at the first null
+    let elems = (is_null | (u64::MAX >> elems)).leading_zeros() as usize;
+    let mask = u64::MAX >> elems;
+    if ((is_valid & is_space) | mask) != 0xffffffffffffffff {
         return None;
     }
 
     vst1q_u8(v.as_mut_ptr(), vorrq_u8(xl, vshlq_n_u8(xh, 4)));
-    Some((is_null | mask).leading_zeros() as usize)
+    Some(elems)
 }
 
 pub fn parse_hex_body_neon(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Option<((usize, usize), usize)> {
@@ -189,6 +194,7 @@ pub fn parse_hex_body_neon(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
     let mut scanned = 0;
     let mut parsed = 0;
     let mut n_elems = 0;
+    let mut is_null_found = false;
     unsafe {
         for chunk in src[..4 * 48].chunks_exact(48) {
             let x = vld3q_u8(chunk);
@@ -207,7 +213,11 @@ pub fn parse_hex_body_neon(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
 
             let parse_len = parse_len.min(scan_len);
             parsed += parse_len;
-            n_elems += parse_multi(x, (parse_len + 1) / 3, &mut dst[n_elems..])?;
+            if !is_null_found {
+                let elems = parse_multi(x, parse_len, &mut dst[n_elems..])?;
+                is_null_found = elems < (parse_len + 1) / 3;
+                n_elems += elems;
+            }
 
             if scan_len < 48 {
                 break;
diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index e77e513..6cd735f 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -424,7 +424,7 @@ impl TextParser {
             }
 
             debug_assert!(!is_in_tail || parsed == 0);
-            is_in_tail = parsed < 4 * 48;
+            is_in_tail = parsed < 4 * 48 || ret.1 < 4 * 16; // the array ends at '|' or a blank column
 
             stream = rem_stream;
         }
@@ -437,7 +437,8 @@ impl TextParser {
 
             // when neither '|' nor '\n' is found in the remainder, the last column may be split there;
             // leave it unconsumed and parse it again with its continuation
-            if !is_eof && !is_in_tail && parsed >= rem_len {
+            let is_blank_found = ret.1 < (parsed + 1) / 3;
+            if !is_eof && !is_in_tail && !is_blank_found && parsed >= rem_len {
                 let keep = rem_len / 3;
                 let drop = ret.1.saturating_sub(keep);
                 buf.truncate(buf.len() - drop);
@@ -445,7 +446,7 @@ impl TextParser {
             }
 
             debug_assert!(!is_in_tail || parsed == 0);
-            is_in_tail = parsed < rem_len;
+            is_in_tail = parsed < rem_len || is_blank_found;
 
             rem_len = rem_len.saturating_sub(scanned);
         }
diff --git a/src/text/parser/x86_64.rs b/src/text/parser/x86_64.rs
index 253a2e8..01b702d 100644
--- a/src/text/parser/x86_64.rs
+++ b/src/text/parser/x86_64.rs
@@ -84,8 +84,9 @@ pub fn parse_hex_single_avx2(src: &[u8]) -> Option<(u64, usize)> {
     unsafe { parse_hex_single_impl(_mm_loadu_si128(src.as_ptr() as *const __m128i)) }
 }
 
-unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems: usize, v: &mut [u8]) -> Option<usize> {
-    debug_assert!(elems <= 16);
+unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, len: usize, v: &mut [u8]) -> Option<usize> {
+    debug_assert!(len <= 48);
+    let elems = (len + 1) / 3;
 
     // gather every three elements
     let index_0 = [0u8, 3, 6, 9, 1, 4, 7, 10, 2, 5, 8, 11, 0x80, 0x80, 0x80, 0x80];
@@ -115,19 +116,21 @@ unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems:
     // "00 " ok
     let is_space = _mm_cmpeq_epi8(s, _mm_set1_epi8(b' ' as i8));
     let is_space = _mm_movemask_epi8(is_space) as u64;
-    let is_space = (is_space << 1) | 1;
+    let is_space = is_space | (u64::MAX << (len / 3)); // the last column may not have its separator
 
     let is_null = sh & sl;
     let is_valid = vh & vl;
 
-    let mask = 0u64.wrapping_sub(1 << elems);
-    if (((is_valid | is_null) & is_space) | mask) != 0xffffffffffffffff {
+    // the array ends at the first null
+    let elems = (is_null | (u64::MAX << elems)).trailing_zeros() as usize;
+    let mask = u64::MAX << elems;
+    if ((is_valid & is_space) | mask) != 0xffffffffffffffff {
         return None;
     }
 
     let hex = _mm_or_si128(xl, _mm_slli_epi16(xh, 4));
     _mm_storeu_si128(&mut v[0] as *mut u8 as *mut __m128i, hex);
-    Some((is_null | mask).trailing_zeros() as usize)
+    Some(elems)
 }
 
 pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Option<((usize, usize), usize)> {
@@ -137,6 +140,7 @@ pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
     let mut scanned = 0;
     let mut parsed = 0;
     let mut n_elems = 0;
+    let mut is_null_found = false;
 
     unsafe {
         let find_delim = |x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, delim: u8| -> usize {
@@ -170,7 +174,11 @@ pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
 
             let parse_len = parse_len.min(scan_len);
             parsed += parse_len;
-            n_elems += parse_multi(x0, x1, x2, x3, (parse_len + 1) / 3, &mut dst[n_elems..])?;
+            if !is_null_found {
+                let elems = parse_multi(x0, x1, x2, x3, parse_len, &mut dst[n_elems..])?;
+                is_null_found = elems < (parse_len + 1) / 3;
+                n_elems += elems;
+            }
 
             if scan_len < 48 {
                 break;
-- 
2.43.0


From fe45f157f7c701c4915316123ff72b7d0616c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 37/61] fix: report a column of a single digit

---
 src/text/parser/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 6cd735f..d499fbf 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -337,6 +337,11 @@ fn test_line_cache() {
     );
 }
 
+// the body parsers leave the last column alone when it has only one character
+fn is_last_column_broken(stream: &[u8], parsed: usize, n_elems: usize) -> bool {
+    parsed % 3 == 1 && n_elems == parsed / 3 && stream[parsed - 1] != b' '
+}
+
 pub struct TextParser {
     src: Box<dyn ByteStream>,
     buffered: (bool, usize), // EOF flag and #bytes in the buffer of `src`
@@ -419,6 +424,9 @@ impl TextParser {
             let (_, rem_stream) = stream.split_at(scanned);
             rem_len -= scanned;
 
+            if !is_in_tail && is_last_column_broken(stream, parsed, ret.1) {
+                return None;
+            }
             if scanned < 4 * 48 {
                 return Some((len - rem_len, is_in_tail, true, false));
             }
@@ -445,6 +453,10 @@ impl TextParser {
                 return Some((len - rem_len + keep * 3, false, false, true));
             }
 
+            if !is_in_tail && is_last_column_broken(stream, parsed, ret.1) {
+                return None;
+            }
+
             debug_assert!(!is_in_tail || parsed == 0);
             is_in_tail = parsed < rem_len || is_blank_found;
 
-- 
2.43.0


From 54314fe94a4002f257cb5b27e8c37405f3d150cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 38/61] fix: ':' in an array is not a blank column

---
 src/text/parser/aarch64.rs |  7 ++++---
 src/text/parser/x86_64.rs  | 11 ++++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/text/parser/aarch64.rs b/src/text/parser/aarch64.rs
index fea6a8f..deb264d 100644
--- a/src/text/parser/aarch64.rs
+++ b/src/text/parser/aarch64.rs
@@ -153,8 +153,8 @@ unsafe fn parse_multi(x: uint8x16x3_t, len: usize, v: &mut [u8]) -> Option<usize
     debug_assert!(len <= 48);
     let elems = (len + 1) / 3;
 
-    let (xh, vh, sh) = to_hex(x.0);
-    let (xl, vl, sl) = to_hex(x.1);
+    let (xh, vh, _) = to_hex(x.0);
+    let (xl, vl, _) = to_hex(x.1);
 
     let to_mask = |x: uint8x16_t| -> u64 {
         let x = vreinterpretq_u64_u8(x);
@@ -173,7 +173,8 @@ unsafe fn parse_multi(x: uint8x16x3_t, len: usize, v: &mut [u8]) -> Option<usize
     let is_space = to_mask(vceqq_u8(x.2, vdupq_n_u8(b' ')));
     let is_space = is_space | (u64::MAX >> (len / 3)); // the last column may not have its separator
 
-    let is_null = to_mask(vandq_u8(sh, sl));
+    // note: `to_hex` takes the delimiters of the header (e.g. ':') for spaces as well
+    let is_null = to_mask(vandq_u8(vceqq_u8(x.0, vdupq_n_u8(b' ')), vceqq_u8(x.1, vdupq_n_u8(b' '))));
     let is_valid = to_mask(vandq_u8(vh, vl));
 
     // the array ends at the first null
diff --git a/src/text/parser/x86_64.rs b/src/text/parser/x86_64.rs
index 01b702d..b93e271 100644
--- a/src/text/parser/x86_64.rs
+++ b/src/text/parser/x86_64.rs
@@ -106,8 +106,8 @@ unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, len: u
     let x23h = _mm_unpackhi_epi32(x2, x3);
     let s = _mm_unpacklo_epi64(x01h, x23h);
 
-    let (xh, vh, sh) = to_hex(l);
-    let (xl, vl, sl) = to_hex(h);
+    let (xh, vh, _) = to_hex(l);
+    let (xl, vl, _) = to_hex(h);
 
     // validation; we allow double-space columns (null)
     // "   " ok
@@ -118,7 +118,12 @@ unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, len: u
     let is_space = _mm_movemask_epi8(is_space) as u64;
     let is_space = is_space | (u64::MAX << (len / 3)); // the last column may not have its separator
 
-    let is_null = sh & sl;
+    // note: `to_hex` takes the delimiters of the header (e.g. ':') for spaces as well
+    let is_null = _mm_and_si128(
+        _mm_cmpeq_epi8(l, _mm_set1_epi8(b' ' as i8)),
+        _mm_cmpeq_epi8(h, _mm_set1_epi8(b' ' as i8)),
+    );
+    let is_null = _mm_movemask_epi8(is_null) as u64;
     let is_valid = vh & vl;
 
     // the array ends at the first null
-- 
2.43.0


From 738c73534320d0dc81362568f9c160442a4ffe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:14 +0000
Subject: [PATCH 39/61] fix: report decimal numbers that are too large

---
 src/text/parser/naive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/text/parser/naive.rs b/src/text/parser/naive.rs
index 7f76f83..a7537eb 100644
--- a/src/text/parser/naive.rs
+++ b/src/text/parser/naive.rs
@@ -90,6 +90,11 @@ pub fn parse_dec_single(src: &[u8]) -> Option<(u64, usize)> {
         }
 
         n = n * 10 + (x - b'0') as u64;
+
+        // the same limit as of hexadecimal numbers
+        if n >= 1 << 60 {
+            return None;
+        }
     }
     None
 }
-- 
2.43.0


From 99c5dfd08c5a68c8f99386d6c93921e3b0da57d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:14 +0000
Subject: [PATCH 40/61] fix: --extend and --invert don't lose slices when S..E
 is too far

---
 src/mapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mapper.rs b/src/mapper.rs
index feef865..cbfd7eb 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -48,7 +48,7 @@ impl SegmentMapperAnchor {
     }
 
     pub fn evaluate(&self, input: &[isize; 2]) -> isize {
-        input[self.anchor] + self.offset
+        input[self.anchor].saturating_add(self.offset)
     }
 }
 
-- 
2.43.0


From a1b690510174aebeef679ac5f24b4da2fc90246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:14 +0000
Subject: [PATCH 41/61] fix: reject literals that don't fit in 64 bits

---
 src/eval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 9b60d7b..ca1f199 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -233,12 +233,12 @@ where
     if (skip_mask & ((skip_mask << 1) | 1)) != 0 {
         return None;
     }
-    let mut val = 0;
+    let mut val = 0i64;
     for &digit in &digits[..i] {
         if digit as i64 >= num_base {
             return None;
         }
-        val = val * num_base + digit as i64;
+        val = val.checked_mul(num_base)?.checked_add(digit as i64)?;
     }
 
     let scaler = match it.peek() {
@@ -250,7 +250,7 @@ where
         _ => 1,
     };
 
-    Some(Val(val * scaler))
+    Some(Val(val.checked_mul(scaler)?))
 }
 
 fn parse_var<I>(first: char, vars: Option<&HashMap<&[u8], VarAttr>>, it: &mut Peekable<I>) -> Option<Token>
-- 
2.43.0


From 85fd7faa4a596cbc321d4bf6363ff9a70e749f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 42/61] fix: --width with S..E far from the slice neither hangs
 nor overflows

---
 src/segment/stride.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index 2c04bad..b23b174 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -5,7 +5,7 @@
 use super::{Segment, SegmentStream};
 use crate::byte::ByteStream;
 use crate::mapper::SegmentMapper;
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, Context, Result};
 
 #[derive(Debug, PartialEq, Eq, Copy, Clone)]
 pub struct ConstSlicerParams {
@@ -33,7 +33,9 @@ impl ConstSlicerParams {
             ));
         }
 
-        let span = end - start;
+        let span = end
+            .checked_sub(start)
+            .with_context(|| format!("map expression {expr:?} is out of range"))?;
         debug_assert!(span > 0);
 
         // calculate clips and margins
@@ -41,8 +43,8 @@ impl ConstSlicerParams {
             start
         } else {
             let mut margin = -start;
-            while margin >= span {
-                margin -= pitch;
+            if margin >= span {
+                margin -= ((margin - span) / pitch + 1) * pitch;
             }
             -margin
         };
-- 
2.43.0


From 72f3fb6f5afdd92805d94606236f84dc3526eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 43/61] fix: reject stdin for a patch or guide when it's the
 default input as well

---
 src/main.rs     | 4 +++-
 src/pipeline.rs | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 25766a5..917fd20 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -101,7 +101,9 @@ impl Args {
     fn count_stdin(&self) -> usize {
         let is_stdin = |x: &str| -> bool { x == "-" || x == "/dev/stdin" };
 
-        self.inputs.iter().filter(|&x| is_stdin(x)).count()
+        // stdin is the default input
+        let is_default = self.inputs.is_empty() && !self.pipeline.is_inplace();
+        is_default as usize + self.inputs.iter().filter(|&x| is_stdin(x)).count()
     }
 
     fn is_command_alone(&self) -> bool {
diff --git a/src/pipeline.rs b/src/pipeline.rs
index 3e89468..afe8e4d 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -97,6 +97,10 @@ pub struct PipelineArgs {
 }
 
 impl PipelineArgs {
+    pub fn is_inplace(&self) -> bool {
+        self.inplace
+    }
+
     pub fn count_stdin(&self) -> usize {
         let is_stdin = |x: &str| -> bool { x == "-" || x == "/dev/stdin" };
 
-- 
2.43.0


From a056ac6243ada0955db9c2e7b90b26d8b0967321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:35 +0000
Subject: [PATCH 44/61] fix: reject unsupported input and output formats
 instead of panicking

---
 src/pipeline.rs |  7 +++++++
 src/text/mod.rs | 19 +++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index afe8e4d..7ca70aa 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -288,6 +288,13 @@ impl Pipeline {
             .unwrap_or_else(|| InoutFormat::from_str_with_columns(default_out_signature, cols).unwrap());
         let patch_format = InoutFormat::from_str_with_columns("xxx", cols).unwrap();
 
+        if !in_format.is_parsable() {
+            return Err(anyhow!("unsupported input format: {:?}", in_format));
+        }
+        if !out_format.is_printable() && m.patch_back.is_none() {
+            return Err(anyhow!("unsupported output format: {:?}", out_format));
+        }
+
         // background byte
         let filler = match m.filler {
             Some(filler) if filler <= 255 => filler as u8,
diff --git a/src/text/mod.rs b/src/text/mod.rs
index af28431..90e848d 100644
--- a/src/text/mod.rs
+++ b/src/text/mod.rs
@@ -95,6 +95,25 @@ impl InoutFormat {
     pub fn is_binary(&self) -> bool {
         self.is_gapless() && self.body == ColumnFormat::Binary
     }
+
+    // true if `TextParser` (or the binary stream) accepts the format
+    pub fn is_parsable(&self) -> bool {
+        use ColumnFormat::*;
+
+        let is_number = |x: &ColumnFormat| matches!(x, None | Decimal | Hexadecimal);
+        self.is_binary() || is_number(&self.offset) && is_number(&self.span) && matches!(self.body, None | Hexadecimal)
+    }
+
+    // true if `TextFormatter` accepts the format
+    pub fn is_printable(&self) -> bool {
+        use ColumnFormat::*;
+
+        let is_dump = matches!(
+            (&self.offset, &self.span, &self.body),
+            (Hexadecimal, Hexadecimal, Hexadecimal) | (None, None, Hexadecimal) | (Decimal, Decimal, Hexadecimal)
+        );
+        self.is_binary() || is_dump
+    }
 }
 
 // end of mod.rs
-- 
2.43.0


From 65360538f456203531ec45eda8d218f5a342f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:36 +0000
Subject: [PATCH 45/61] fix: a blank pager is regarded as unset instead of
 panicking

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 917fd20..5062c05 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -244,7 +244,9 @@ impl Drop for Pager {
 }
 
 fn build_drain(pager: &Option<String>) -> Result<(Option<Pager>, Box<dyn Write>)> {
+    // a blank one is regarded as unset
     let pager = pager.clone().or_else(|| std::env::var("PAGER").ok());
+    let pager = pager.filter(|x| !x.trim().is_empty());
     if pager.is_none() && !std::io::stdout().is_terminal() {
         return Ok((None, Box::new(std::io::stdout())));
     }
-- 
2.43.0


From c88953393058fb3c5e34ed5d7ecccffcb8ad6674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 46/61] fix: --patch-back feeds the records in the --out-format

---
 src/drain/patch.rs | 10 ++++++++--
 src/pipeline.rs    |  8 ++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index b531fa8..82d02b9 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -117,7 +117,13 @@ pub struct PatchDrain {
 }
 
 impl PatchDrain {
-    pub fn new(patch: Box<dyn SegmentStream>, original: Box<dyn ByteStream>, command: &str, format: &InoutFormat) -> Result<Self> {
+    pub fn new(
+        patch: Box<dyn SegmentStream>,
+        original: Box<dyn ByteStream>,
+        command: &str,
+        format: &InoutFormat,
+        patch_format: &InoutFormat,
+    ) -> Result<Self> {
         let mut pipe = BashPipe::new(command)?;
         let writer = pipe.spawn_writer();
         let formatter = TextFormatter::new(format, (0, 0));
@@ -142,7 +148,7 @@ impl PatchDrain {
             worker,
         };
 
-        let patch = PatchStream::new(Box::new(original), Box::new(reader), format);
+        let patch = PatchStream::new(Box::new(original), Box::new(reader), patch_format);
         Ok(PatchDrain { patch, pipe })
     }
 }
diff --git a/src/pipeline.rs b/src/pipeline.rs
index 7ca70aa..666193b 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -291,7 +291,7 @@ impl Pipeline {
         if !in_format.is_parsable() {
             return Err(anyhow!("unsupported input format: {:?}", in_format));
         }
-        if !out_format.is_printable() && m.patch_back.is_none() {
+        if !out_format.is_printable() {
             return Err(anyhow!("unsupported output format: {:?}", out_format));
         }
 
@@ -449,7 +449,11 @@ impl Pipeline {
                     (cache, NodeInstance::Byte(next))
                 }
                 (PatchBack(command), NodeInstance::Segment(prev)) => {
-                    let next = Box::new(PatchDrain::new(prev, cache.unwrap(), command, &self.patch_format)?);
+                    // the records come back in the format of the ones fed, if it tells where they are
+                    let format = &self.out_format;
+                    let patch_format = if format.is_gapless() { &self.patch_format } else { format };
+
+                    let next = Box::new(PatchDrain::new(prev, cache.unwrap(), command, format, patch_format)?);
                     (None, NodeInstance::Byte(next))
                 }
                 (next, _) => return Err(anyhow!("unallowed node {:?} found after (internal error)", next)),
-- 
2.43.0


From e6361ac6d8e9e2dd45f691ab55a0c3c8fb8a785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 47/61] fix: reject --inplace with --output to another file,
 which emptied the input

---
 src/pipeline.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 666193b..ae3974a 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -274,6 +274,11 @@ impl Pipeline {
         };
         nodes.push(node);
 
+        // nothing would be left for the input file
+        if m.inplace && !written_back && m.patch_back.is_none() {
+            return Err(anyhow!("--inplace and --output to another file are exclusive."));
+        }
+
         // special handling for input / output formats
         let default_in_signature = "b";
         let default_out_signature = if m.inplace && written_back { "b" } else { "xxx" };
-- 
2.43.0


From 819dd43b2eef7588a84a9882b72665ad9c1dda17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:47 +0000
Subject: [PATCH 48/61] fix: only signs are peeled off the operands of an
 addition

---
 src/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index ca1f199..2479c46 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -911,14 +911,14 @@ fn remove_prefix_binary(tokens: &mut [(Token, usize)]) -> Option<usize> {
     match (tokens[lhs], tokens[root - 1].0, tokens[root].0) {
         (x, y, Op(op)) if is_addsub(op) => {
             let (s1, lhs, root) = match x {
-                (Prefix(s1), llhs) => {
+                (Prefix(s1), llhs) if is_addsub(s1) => {
                     tokens[lhs - llhs + 1..].rotate_left(llhs);
                     (s1, lhs - llhs, root - llhs)
                 }
                 _ => ('+', lhs, root),
             };
             let (s2, root) = match y {
-                Prefix(s2) => (s2, root - 1),
+                Prefix(s2) if is_addsub(s2) => (s2, root - 1),
                 _ => ('+', root),
             };
             save_and_flip(tokens, root, Op(gather_sign2(s1, op, s2)), root - lhs);
-- 
2.43.0


From 1c90aab55f139eea00fadd6be62b2230b59dd795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:49 +0000
Subject: [PATCH 49/61] fix: comparison of a comparison is not cancelled out

---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 2479c46..8f01b5a 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -855,7 +855,7 @@ fn remove_prefix_unary(tokens: &mut [(Token, usize)]) -> Option<usize> {
 
     match (tokens[lhs], tokens[root].0) {
         ((Prefix(s1), llhs), Prefix(s2)) => {
-            if s1 == s2 {
+            if s1 == s2 && s1 != 'G' {
                 // x ! ! => x
                 remove_prefix_unary(&mut tokens[..lhs - llhs + 1])
             } else if is_addsub(s1) && is_addsub(s2) {
-- 
2.43.0


From aa4225c394264021e7c5b48bc531100c32423f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:51 +0000
Subject: [PATCH 50/61] fix: +(-(x + y)) keeps its sign in an expression

---
 src/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 8f01b5a..55bf60e 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -531,8 +531,8 @@ fn fuse_sign_op(s: char, op: char) -> char {
     match (s, op) {
         ('+', '+') => '+',
         ('+', '-') => '-',
-        ('+', '#') => '+',
-        ('+', '~') => '-',
+        ('+', '#') => '#',
+        ('+', '~') => '~',
         ('-', '+') => '#',
         ('-', '-') => '~',
         ('-', '#') => '+',
-- 
2.43.0


From 5f15952e21ae6d27084369befe6d03c47be36822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:53 +0000
Subject: [PATCH 51/61] fix: rotate chained *, &, |, and ^ without touching
 their signs, and x + (y - z) into (x + y) - z

---
 src/eval.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 55bf60e..b6a6a2f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -637,9 +637,14 @@ fn rotate_left(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 let zpos = (root - 1) - rlhs + 1;
                 tokens[zpos..].rotate_right(1);
 
-                let (s1, op1) = peel_sign_from_op(op1);
-                let (s2, op2) = peel_sign_from_op(op2);
-                let (op1, op2) = (fuse_sign3(s2, op1, op2), fuse_sign_op(s1, fuse_sign2(s2, op1)));
+                let (op1, op2) = if is_addsub(op1) {
+                    // s1(x op1 s2(y op2 z)) = s1((x (s2,op1) y) (s2,op1,op2) z)
+                    let (s1, op1) = peel_sign_from_op(op1);
+                    let (s2, op2) = peel_sign_from_op(op2);
+                    (fuse_sign2(s2, op1), fuse_sign_op(s1, fuse_sign3(s2, op1, op2)))
+                } else {
+                    (op1, op2)
+                };
                 save_and_flip(tokens, root - rlhs, Op(op1), lhs - rlhs);
                 save_and_flip(tokens, root, Op(op2), rlhs);
 
-- 
2.43.0


From 3ec6656b86b0b937e85e8000fa763872d51caeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:55 +0000
Subject: [PATCH 52/61] fix: swap operands of chained *, &, |, and ^, and
 squash only additions of the same scalar

---
 src/eval.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index b6a6a2f..00d663a 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -680,9 +680,13 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
     let lhs = root - tokens[root].1;
     match (tokens[lhs], tokens[root - 1].0, tokens[root].0) {
         ((Op(op1), llhs), y, Op(op2)) if is_comm_2(op1, op2) => {
-            let (s1, op1) = peel_sign_from_op(op1);
-            let (s2, op2) = peel_sign_from_op(op2);
-            let (op1, op2) = (fuse_sign2_op(s1, s2, op1), fuse_sign2(s1, op2));
+            let (op1, op2) = if is_addsub(op1) {
+                let (s1, op1) = peel_sign_from_op(op1);
+                let (s2, op2) = peel_sign_from_op(op2);
+                (fuse_sign2_op(s1, s2, op1), fuse_sign2(s1, op2))
+            } else {
+                (op1, op2)
+            };
 
             if needs_swap(&tokens[lhs - 1].0, &y) {
                 // (x (s1,op1) y) (s2,op2) z = s2(s1(x op1 y) op2 z) = pf1pf2((x op1 y) (s1,op2) z)
@@ -692,8 +696,8 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 save_and_flip(tokens, root, Op(op1), llhs);
                 return Some((true, root));
             }
-            if let (Var(x, xc), Var(y, yc)) = (tokens[lhs - 1].0, y) {
-                if x == y {
+            if let ((Var(x, xc), 0), (Var(y, yc), 0)) = (tokens[lhs - 1], tokens[root - 1]) {
+                if x == y && is_addsub(op1) {
                     // squash the two nodes if they have the same variable id
                     tokens[lhs - 1].0 = Var(x, apply_op(op2, xc, yc));
                     save_and_flip(tokens, lhs, Op(op1), 2);
@@ -711,8 +715,8 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 save_and_flip(tokens, root, Op(swap_op_hands(op)), ylen + 1);
                 return Some((false, root));
             }
-            if let (Var(x, xc), Var(y, yc)) = (x, y) {
-                if x == y {
+            if let ((Var(x, xc), 0), (Var(y, yc), 0)) = (tokens[lhs], tokens[root - 1]) {
+                if x == y && is_addsub(op) {
                     // squash the two nodes if they have the same variable id
                     tokens[lhs].0 = Var(x, apply_op(op, xc, yc));
                     return Some((false, lhs));
-- 
2.43.0


From e39eef81f2fa0c48579f049eba43fe0ea80e7c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:57 +0000
Subject: [PATCH 53/61] fix: fold constants in chained *, &, |, and ^

---
 src/eval.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 00d663a..a8ba664 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -753,9 +753,13 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
         // (x + 2) + 3 => x + 5
         (Op(op1), Val(y), Op(op2)) if is_comm_2(op1, op2) => {
             if let Val(x) = tokens[lhs - 1].0 {
-                let (s1, op1) = peel_sign_from_op(op1);
-                let (s2, op2) = peel_sign_from_op(op2);
-                let (op1, op2) = (fuse_sign_op(fuse_sign2(s1, s2), op1), fuse_sign3(s1, op1, op2));
+                let (op1, op2) = if is_addsub(op1) {
+                    let (s1, op1) = peel_sign_from_op(op1);
+                    let (s2, op2) = peel_sign_from_op(op2);
+                    (fuse_sign_op(fuse_sign2(s1, s2), op1), fuse_sign3(s1, op1, op2))
+                } else {
+                    (op1, op2)
+                };
 
                 tokens[lhs - 1].0 = Val(apply_op(op2, x, y));
                 save_and_flip(tokens, lhs, Op(op1), 2);
-- 
2.43.0


From 526b65555f03bf7c840c8e1bcdf58668186e90f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:59 +0000
Subject: [PATCH 54/61] fix: the index of an array element is kept when its
 multiple is added to zero

---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index a8ba664..88b00dd 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -802,7 +802,7 @@ fn remove_identity(tokens: &mut [(Token, usize)]) -> Option<usize> {
             tokens[lhs].0 = Var(id, apply_prefix('-', c));
             Some(lhs)
         }
-        ((Var(_, 0), _), x, Op(op)) if is_addsub(op) => {
+        ((Var(_, 0), 0), x, Op(op)) if is_addsub(op) && root == 2 => {
             // this arm applies to lhs, the special case for the leftmost subtree
             let (s, op) = peel_sign_from_op(op);
             let op = fuse_sign2(s, op);
-- 
2.43.0


From 17ecd50c91cd5091840d54b2e6a37daadb5da6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:01 +0000
Subject: [PATCH 55/61] fix: give &, ^, and | the precedences of the C language

---
 src/eval.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 88b00dd..fe25ed4 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -45,6 +45,14 @@ fn is_cmp(c: char) -> bool {
     c == 'g' || c == 'G' || c == 'l' || c == 'L' // >, >=, <, <=
 }
 
+fn is_bitand(c: char) -> bool {
+    c == '&'
+}
+
+fn is_bitxor(c: char) -> bool {
+    c == '^'
+}
+
 fn is_pow(c: char) -> bool {
     c == '@'
 }
@@ -62,7 +70,14 @@ fn latter_precedes(former: &Token, latter: &Token) -> bool {
             } else if is_pow(former) || is_pow(latter) {
                 return is_pow(latter);
             }
-            debug_assert!(is_cmp(former) && is_cmp(latter));
+            if is_cmp(former) || is_cmp(latter) {
+                return !is_cmp(former);
+            } else if is_bitand(former) || is_bitand(latter) {
+                return !is_bitand(former);
+            } else if is_bitxor(former) || is_bitxor(latter) {
+                return !is_bitxor(former);
+            }
+            debug_assert!(former == '|' && latter == '|');
             false
         }
         _ => true,
-- 
2.43.0


From d574a10d3a1936beec25be6548f70cf6f4a78352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:03 +0000
Subject: [PATCH 56/61] fix: accept unary operators in brackets and after
 another

---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index fe25ed4..5892f09 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -324,7 +324,7 @@ fn mark_prefices(tokens: &mut [Token]) -> Option<()> {
         let (former, latter) = tokens.split_at_mut(1);
         match (former[0], latter[0]) {
             // fixup unary op
-            (Op(_) | Paren('('), Op(y)) if is_unary(y) => {
+            (Op(_) | Prefix(_) | Paren('(' | '['), Op(y)) if is_unary(y) => {
                 latter[0] = Prefix(if y == '~' { '!' } else { y });
             }
             // prefix followed by an expression
-- 
2.43.0


From c3343b935a2bf1a4fc3665527c9bebf5f1ba3091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:05 +0000
Subject: [PATCH 57/61] fix: reject expressions of unbalanced brackets

---
 src/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 5892f09..833861d 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -397,6 +397,9 @@ fn sort_into_rpn(tokens: &[Token]) -> Option<Vec<(Token, usize)>> {
                     if op == Paren(other) {
                         break;
                     }
+                    if let Paren(_) = op {
+                        return None;
+                    }
                     expand_and_push_op(&op, calc_lhs(&op, i, rpn.len()), &mut rpn);
                 }
                 if x == ']' {
-- 
2.43.0


From d3798ad8d36afbb208b98fb45745c449e2d09a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:07 +0000
Subject: [PATCH 58/61] fix: division by zero is an error of the expression
 instead of a panic

---
 src/eval.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 833861d..fa836b0 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -758,6 +758,8 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
 
     let lhs = root - tokens[root].1;
     match (tokens[lhs].0, tokens[root - 1].0, tokens[root].0) {
+        // 2 / 0 is left as is (to be an error on evaluation)
+        (Val(_), Val(0), Op('/' | '%')) => Some(root),
         // 2 + 3 => 5 (leaf)
         (Val(x), Val(y), Op(op)) => {
             tokens[lhs].0 = Val(apply_op(op, x, y));
@@ -1204,6 +1206,9 @@ where
             (Op(op), _) => {
                 let y = stack.pop().context(starved)?;
                 let x = stack.last_mut().context(starved)?;
+                if y == 0 && (op == '/' || op == '%') {
+                    return Err(anyhow!("division by zero"));
+                }
                 *x = apply_op(op, *x, y);
             }
             (Var(id, c), lhs) => {
-- 
2.43.0


From c1765c034735c8350124e30de41e081525c09c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:09 +0000
Subject: [PATCH 59/61] fix: exponents, negations, and divisions that overflow
 in an expression don't panic

---
 src/eval.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index fa836b0..6c1480d 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -460,7 +460,7 @@ fn test_sort_into_rpn() {
 fn apply_prefix(c: char, x: i64) -> i64 {
     match c {
         '+' => x,
-        '-' => -x,
+        '-' => x.wrapping_neg(),
         '!' => !x,
         'G' => (x >= 0) as i64,
         _ => panic!("unknown op: {c:?}"),
@@ -469,13 +469,13 @@ fn apply_prefix(c: char, x: i64) -> i64 {
 
 fn apply_op(c: char, x: i64, y: i64) -> i64 {
     match c {
-        '+' => x + y,
-        '-' => x - y,
-        '#' => -(x + y),
-        '~' => -(x - y),
-        '*' => x * y,
-        '/' => x / y,
-        '%' => x % y,
+        '+' => x.wrapping_add(y),
+        '-' => x.wrapping_sub(y),
+        '#' => x.wrapping_add(y).wrapping_neg(),
+        '~' => y.wrapping_sub(x),
+        '*' => x.wrapping_mul(y),
+        '/' => x.wrapping_div(y),
+        '%' => x.wrapping_rem(y),
         '&' => x & y,
         '|' => x | y,
         '^' => x ^ y,
@@ -483,19 +483,19 @@ fn apply_op(c: char, x: i64, y: i64) -> i64 {
             if y >= 0 {
                 x << ((y as usize) & 0x3f)
             } else {
-                x >> ((-y as usize) & 0x3f)
+                x >> ((y.wrapping_neg() as usize) & 0x3f)
             }
         }
         '>' => {
             if y >= 0 {
                 x >> ((y as usize) & 0x3f)
             } else {
-                x << ((-y as usize) & 0x3f)
+                x << ((y.wrapping_neg() as usize) & 0x3f)
             }
         }
         '@' => {
             if y >= 0 {
-                x.pow(y as u32)
+                x.wrapping_pow(y as u32)
             } else {
                 0
             }
@@ -767,7 +767,7 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
         }
         // x 2 * => x(2)
         (Var(id, c), Val(x), Op('*')) => {
-            tokens[lhs].0 = Var(id, c * x);
+            tokens[lhs].0 = Var(id, c.wrapping_mul(x));
             Some(lhs)
         }
         // (x + 2) + 3 => x + 5
@@ -1213,10 +1213,10 @@ where
             }
             (Var(id, c), lhs) => {
                 if lhs == 0 {
-                    stack.push(c * get(id, 0));
+                    stack.push(c.wrapping_mul(get(id, 0)));
                 } else {
                     let x = stack.last_mut().context(starved)?;
-                    *x = c * get(id, *x);
+                    *x = c.wrapping_mul(get(id, *x));
                 }
             }
             _ => {
-- 
2.43.0


From 260776891ca89b5a959fad89786664550e369247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:10 +0000
Subject: [PATCH 60/61] fix: a constant can be longer than 32 digits

---
 src/eval.rs | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 6c1480d..1880edd 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -220,40 +220,33 @@ where
         }
     };
 
-    let mut skip_mask = 1u64;
-    let mut push_skip_mask = |skip: bool| {
-        skip_mask = (skip_mask << 1) | (skip as u64);
-    };
-
-    let mut i = 0;
-    let mut digits = [0u8; 32];
-    let mut push_digit = |digit: i64| {
-        digits[i] = digit as u8;
-        i += 1;
-    };
-
-    let (skip, digit) = parse_char(first)?;
-    push_skip_mask(skip);
-    push_digit(digit);
+    let (mut skipped, digit) = parse_char(first)?;
+    if skipped {
+        return None;
+    }
+    let mut digits = vec![digit];
 
+    // filler character, '_', must not appear at the head or tail, and must not appear contiguously.
     while let Some((skip, digit)) = parse_char(*it.peek().unwrap_or(&'\n')) {
-        push_skip_mask(skip);
+        if skip && skipped {
+            return None;
+        }
         if !skip {
-            push_digit(digit);
+            digits.push(digit);
         }
+        skipped = skip;
         it.next()?;
     }
-
-    // filler character, '_', must not appear at the head or tail, and must not appear contiguously.
-    if (skip_mask & ((skip_mask << 1) | 1)) != 0 {
+    if skipped {
         return None;
     }
+
     let mut val = 0i64;
-    for &digit in &digits[..i] {
-        if digit as i64 >= num_base {
+    for digit in digits {
+        if digit >= num_base {
             return None;
         }
-        val = val.checked_mul(num_base)?.checked_add(digit as i64)?;
+        val = val.checked_mul(num_base)?.checked_add(digit)?;
     }
 
     let scaler = match it.peek() {
-- 
2.43.0


From 1941739ad468524604a538bde7ddfda36a6e0bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:12 +0000
Subject: [PATCH 61/61] fix: accept the E suffix, and take it as 10^18 (or
 2^60)

---
 src/eval.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 1880edd..23900b0 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -160,13 +160,16 @@ where
     Some(Op(first))
 }
 
-fn parse_char(c: char) -> Option<(bool, i64)> {
+fn parse_char(c: char, num_base: i64) -> Option<(bool, i64)> {
     if c == '_' {
         return Some((true, 0));
     }
     if c.is_ascii_digit() {
         return Some((false, (c as i64) - ('0' as i64)));
     }
+    if num_base != 16 {
+        return None; // letters after a number are suffixes
+    }
     if ('a'..='f').contains(&c) {
         return Some((false, (c as i64) - ('a' as i64) + 10));
     }
@@ -220,14 +223,14 @@ where
         }
     };
 
-    let (mut skipped, digit) = parse_char(first)?;
+    let (mut skipped, digit) = parse_char(first, num_base)?;
     if skipped {
         return None;
     }
     let mut digits = vec![digit];
 
     // filler character, '_', must not appear at the head or tail, and must not appear contiguously.
-    while let Some((skip, digit)) = parse_char(*it.peek().unwrap_or(&'\n')) {
+    while let Some((skip, digit)) = parse_char(*it.peek().unwrap_or(&'\n'), num_base) {
         if skip && skipped {
             return None;
         }
@@ -254,7 +257,7 @@ where
         Some(&x) if tolower(x) == 'm' => parse_prefix(2, it)?,
         Some(&x) if tolower(x) == 'g' => parse_prefix(3, it)?,
         Some(&x) if tolower(x) == 't' => parse_prefix(4, it)?,
-        Some(&x) if tolower(x) == 'e' => parse_prefix(5, it)?,
+        Some(&x) if tolower(x) == 'e' => parse_prefix(6, it)?,
         _ => 1,
     };
 
-- 
2.43.0

