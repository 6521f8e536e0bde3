From eabb6e29871523e537257f25517400c0fa6a1833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:30 +0000
Subject: [PATCH 01/50] hooks: cfg(verif_hooks) access for the verification
 harness

---
 src/db/mem_table.rs |  6 ++++++
 src/db/skip_list.rs |  2 ++
 src/lib.rs          |  3 +++
 src/verif_hooks.rs  | 28 ++++++++++++++++++++++++++++
 4 files changed, 39 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index a003400..7b7804c 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -92,6 +92,12 @@ impl<Cmp: Comparator> MemTable<Cmp> {
         self.list.insert(UnsafeSlice::new_with_arena(buf, self.arena.clone())?)
     }
 
+    /// The underlying list, for the verification harness
+    #[cfg(verif_hooks)]
+    pub fn verif_list(&self) -> &SkipList<Cmp> {
+        &self.list
+    }
+
     /// 通过 key 查找结果
     pub fn get(&self, _key: &LookupKey) -> Result<Option<Slice>> {
         todo!()
diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 1bc28f2..bdda3e3 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -5,6 +5,8 @@ use std::ptr::null_mut;
 use std::sync::{Arc, RwLock};
 
 use rand::prelude::*;
+#[cfg(verif_hooks)]
+use crate::verif_hooks::random;
 
 use crate::debug;
 use crate::traits::comparator_trait::Comparator;
diff --git a/src/lib.rs b/src/lib.rs
index c1c3131..f30625f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,7 +6,10 @@ pub mod db;
 mod table;
 pub mod util;
 mod traits;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
+#[cfg(not(verif_hooks))]
 #[global_allocator]
 static ALLOC: jemallocator::Jemalloc = jemallocator::Jemalloc;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..974ca03
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,28 @@
+//! Access for the verification harness. Compiled only with `--cfg verif_hooks`.
+
+use std::cell::RefCell;
+
+use rand::distributions::{Distribution, Standard};
+use rand::RngCore;
+
+pub use crate::table::filter_block;
+pub use crate::traits::comparator_trait::Comparator;
+pub use crate::traits::filter_policy_trait::{FilterPolicy, FilterPolicyPtr};
+pub use crate::traits::DataIterator;
+
+thread_local! {
+    static RNG: RefCell<Option<Box<dyn RngCore>>> = RefCell::new(None);
+}
+
+/// Makes the random draws of this thread come from `rng`, or from the default generator again.
+pub fn set_rng(rng: Option<Box<dyn RngCore>>) {
+    RNG.with(|r| *r.borrow_mut() = rng);
+}
+
+/// Stands in for `rand::random`.
+pub fn random<T>() -> T where Standard: Distribution<T> {
+    RNG.with(|r| match r.borrow_mut().as_mut() {
+        Some(rng) => Standard.sample(rng),
+        None => rand::random(),
+    })
+}
-- 
2.43.0


From c2fc689165d9efcfb08984956ab8e2b715455e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:12 +0000
Subject: [PATCH 02/50] fix: checked varint decoding rejects truncated and
 overlong varints

---
 src/util/coding.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index c4320b8..6dd4107 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -957,6 +957,7 @@ macro_rules! get_varint {
             check_length!(self.offset, self.limit);
             // 调用解码方法
             let res = unsafe { $var_name(&self.data, self.offset, self.limit) };
+            self.check_varint_end(res.1)?;
             self.offset = res.1;
             Ok(res.0)
         }
@@ -1027,6 +1028,18 @@ impl<'a> Decoder<'a> {
         self.offset < self.limit
     }
 
+    /// 变长编码的最后一个字节必须 < 128, 否则说明数据被截断或者编码超长
+    fn check_varint_end(&self, end: usize) -> Result<()> {
+        let data = &self.data;
+        let ptr = get_ptr!(data);
+        if unsafe { ptr::read(ptr.add(end - 1)) } & 128 != 0 {
+            return Err(LevelError::invalid_argument(
+                Slice::from("malformed varint"),
+                Slice::from(format!("offset = {}, limit = {}", self.offset, self.limit))));
+        }
+        Ok(())
+    }
+
     get_fixed!(uncheck_get_fixed32, uncheck_decode_fixed32, u32, u32, uncheck);
     get_fixed!(uncheck_get_fixed64, uncheck_decode_fixed64, u64, u64, uncheck);
     get_fixed!(get_fixed32, uncheck_decode_fixed32, u32, u32, check);
@@ -1072,8 +1085,7 @@ impl<'a> Decoder<'a> {
     ///  let slice = decoder.get_length_prefixed_slice()?;
     /// ```
     pub fn get_length_prefixed_slice(&mut self) -> Result<Slice> {
-        check_length!(self.offset, self.limit);
-        let size = unsafe { self.uncheck_get_varint32() } as usize;
+        let size = self.get_varint32()? as usize;
         check_length!(self.offset, size, self.limit, read);
         unsafe { Ok(self.uncheck_get_buf(size)) }
     }
-- 
2.43.0


From 6794e2eb0c16171822a5569210eff1e7b295f343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:12 +0000
Subject: [PATCH 03/50] fix: decoded buffers are allocated with the layout they
 are freed with

---
 src/util/coding.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 6dd4107..db8d82f 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1,5 +1,4 @@
-use std::{intrinsics, ptr};
-use std::alloc::{alloc, Layout};
+use std::ptr;
 use std::ops::Deref;
 
 use crate::util::coding::EncodeData::{Buffer, Slices, Vector};
@@ -429,12 +428,8 @@ unsafe fn uncheck_write_buf(data: &mut MutEncodeData, offset: usize, buf: &[u8])
 /// ```
 unsafe fn uncheck_read_buf(data: &EncodeData, offset: usize, len: usize) -> Slice {
     let ptr: *const u8 = get_ptr!(data).add(offset);
-    // 分配一块内存长度为buf的长度
-    let dst: *mut u8 = alloc(Layout::from_size_align_unchecked(len, 4));
-    // 将数据拷贝到这块内存上
-    intrinsics::copy_nonoverlapping(ptr, dst, len);
-    // 使用slice包装内存
-    Slice::from_raw_parts(dst, len)
+    // 将数据拷贝到slice的内存上
+    Slice::from_buf(std::slice::from_raw_parts(ptr, len))
 }
 
 /// 编码的数据 只读的
-- 
2.43.0


From bbab03d7f72b0cb3ed9e296938b9dcd7c6ac2b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:12 +0000
Subject: [PATCH 04/50] fix: read length check does not overflow on huge
 lengths

---
 src/util/coding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index db8d82f..bb30a38 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -135,7 +135,7 @@ macro_rules! check_length {
     };
     ($offset: expr, $read_len: expr, $limit: expr, read) => {
         // 偏移量 + 读取长度 >= 容器的长度时, 会抛出异常
-        if $offset + $read_len > $limit {
+        if $offset.saturating_add($read_len) > $limit {
             return Err(LevelError::invalid_argument(
                 Slice::from("offset + read_len must < limit"),
                 Slice::from(format!("offset = {}, read_len = {}, limit = {}", $offset, $read_len, $limit))
-- 
2.43.0


From 0f21bae49b696a0329733164c8950f0d1ae52959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:12 +0000
Subject: [PATCH 05/50] fix: get_buf advances past the bytes it returns, like
 every other getter

---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index bb30a38..fe6ec49 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1130,10 +1130,10 @@ impl<'a> Decoder<'a> {
     ///  // [1, 2, 3]
     ///  let buf = decoder.get_buf(3)?;
     /// ```
-    pub fn get_buf(&self, len: usize) -> Result<Slice> {
+    pub fn get_buf(&mut self, len: usize) -> Result<Slice> {
         check_length!(self.offset, len, self.limit, read);
         unsafe {
-            Ok(uncheck_read_buf(&self.data, self.offset, len))
+            Ok(self.uncheck_get_buf(len))
         }
     }
 
-- 
2.43.0


From 37022d532effb52ad617fa741fb74f0a7bc51e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:12 +0000
Subject: [PATCH 06/50] fix: put_length_prefixed_slice writes nothing when the
 slice does not fit

---
 src/util/coding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index fe6ec49..15801af 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -801,6 +801,8 @@ impl<'a> Encoder<'a> {
     ///  encoder.put_length_prefixed_slice(&slice)?;
     /// ```
     pub fn put_length_prefixed_slice(&mut self, slice: &Slice) -> Result<()> {
+        // 长度前缀和数据必须能一起写入
+        if let MutVector(_) = self.data {} else { check_length!(self.offset, varint_length(slice.size() as u64) + slice.size(), self.len(), write) };
         self.put_varint32(slice.size() as u32)?;
         self.put_buf(slice)?;
         Ok(())
-- 
2.43.0


From 15c052f0e236931662ca5974e5d68378cb6219f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:34 +0000
Subject: [PATCH 07/50] fix: fixed-width reads and writes do not assume an
 aligned position

---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 15801af..680c78c 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -178,7 +178,7 @@ macro_rules! encode_fixed {
                 // 移动指针
                 let end = mut_ptr.add(offset);
                 // 写入数据
-                ptr::write(end as *mut $type, swap_bytes!(value));
+                ptr::write_unaligned(end as *mut $type, swap_bytes!(value));
             }
         }
     };
@@ -316,7 +316,7 @@ macro_rules! decode_fixed {
         unsafe fn $name(data: &EncodeData, offset: usize) -> $type {
             // offset + 读取字节 >= data.len() 时会溢出
             let ptr = get_ptr!(data);
-            swap_bytes!(unsafe {ptr::read(ptr.add(offset) as *mut $type)})
+            swap_bytes!(unsafe {ptr::read_unaligned(ptr.add(offset) as *mut $type)})
         }
     }
 }
-- 
2.43.0


From 90810289f95d0e4776731368d3049ece1c22f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:47 +0000
Subject: [PATCH 08/50] fix: crc skips the bytes already consumed when data is
 not 4-byte aligned

---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index c2f0443..922f37a 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -384,7 +384,7 @@ impl CRC {
         }
 
         if n - s >= 16 {
-            let mut decoder = Decoder::with_buf(data);
+            let mut decoder = Decoder::with_buf(&data[s..]);
             let mut crc0 = unsafe { decoder.uncheck_get_fixed32() } ^ l;
             let mut crc1 = unsafe { decoder.uncheck_get_fixed32() };
             let mut crc2 = unsafe { decoder.uncheck_get_fixed32() };
-- 
2.43.0


From 386cf3837526e9c4bd0db11ed3e0b95c0c664fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:47 +0000
Subject: [PATCH 09/50] fix: crc rotates the four strides after a 4-byte step

---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index 922f37a..c0963f6 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -398,7 +398,7 @@ impl CRC {
             while (n - s) >= 4 {
                 step4!(crc0, data, decoder, s, 0);
                 // swap variables
-                (crc1, crc2, crc3) = (crc0, crc1, crc2);
+                (crc0, crc1, crc2, crc3) = (crc1, crc2, crc3, crc0);
                 s += 4;
                 // println!("step4, c0: {:x}, c1: {:x}, c2: {:x}, c3: {:x}, s: {}", crc0, crc1, crc2, crc3, s);
             }
-- 
2.43.0


From 8b7785a29f3aaef7d818cd2bb2ce31fcf5a68a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:47 +0000
Subject: [PATCH 10/50] fix: unmasking a crc wraps like masking does

---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index c0963f6..22ad506 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -471,7 +471,7 @@ impl CRC {
     /// ```
     #[inline]
     pub fn unmask(masked_crc: u32) -> u32 {
-        let rot = masked_crc - K_MASK_DELTA;
+        let rot = masked_crc.wrapping_sub(K_MASK_DELTA);
         (rot >> 17) | (rot << 15)
     }
 }
-- 
2.43.0


From d9c34ceb28ed4b8e51212730de44afc3db1d03d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 11/50] fix: log writer stores the record checksum as a fixed
 32-bit value

---
 src/db/log_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 485ce95..8c21058 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -75,7 +75,7 @@ impl LogWriter {
         let mut crc = CRC::extend(self.type_crc[record_type as usize], data);
         crc = CRC::mask(crc);
         let mut header = [0_u8; K_HEADER_SIZE];
-        Encoder::with_buf(&mut header).put_varint32(crc);
+        Encoder::with_buf(&mut header).put_fixed32(crc)?;
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-- 
2.43.0


From 5f544ee8de204dcd5d4b902c9f3498a3cc4cd2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 12/50] fix: log writer recomputes the space left in the block
 for every fragment

---
 src/db/log_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 8c21058..6ba0ad2 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -39,12 +39,12 @@ impl LogWriter {
     }
 
     pub fn add_record(&mut self, slice: Slice) -> Result<()> {
-        let left_over = K_BLOCK_SIZE - self.block_offset;
-        assert!(left_over >= 0);
         let mut left = slice.len();
         let mut begin = true;
         let mut start_idx = 0;
         while begin || left > 0 {
+            let left_over = K_BLOCK_SIZE - self.block_offset;
+            assert!(left_over >= 0);
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
                     self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
-- 
2.43.0


From 28baf61a30bc6d0add415b8e0b3804bc12e075ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 13/50] fix: log writer writes all bytes when the sink accepts
 only part

---
 src/db/log_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 6ba0ad2..34bbcc2 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -47,7 +47,7 @@ impl LogWriter {
             assert!(left_over >= 0);
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
-                    self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
+                    self.file_writer.write_all(&K_EMPTY_BYTES[0..left_over])?;
                 }
                 self.block_offset = 0;
             }
@@ -79,10 +79,10 @@ impl LogWriter {
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-        self.file_writer.write(header.as_ref())?;
+        self.file_writer.write_all(header.as_ref())?;
         self.block_offset += K_HEADER_SIZE;
         if !data.is_empty() {
-            self.file_writer.write(data)?;
+            self.file_writer.write_all(data)?;
             self.block_offset += data.len();
         }
         self.file_writer.flush()?;
-- 
2.43.0


From 7841c24c07ba45ffa9e13ac4b5cbafecd07705d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 14/50] fix: log reader fills whole blocks, skips block
 trailers and reports the end of the log

---
 src/db/log_reader.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 099240a..81f4fef 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -1,8 +1,8 @@
 use std::fs::File;
-use std::io::{Read, Seek, Write};
+use std::io::{ErrorKind, Read, Seek, Write};
 use std::io::SeekFrom::Start;
 
-use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_LAST_TYPE, K_MIDDLE_TYPE};
+use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_HEADER_SIZE, K_LAST_TYPE, K_MIDDLE_TYPE};
 use crate::util::coding::Decoder;
 use crate::util::crc::{AsCrc, CRC};
 use crate::util::Result;
@@ -46,8 +46,13 @@ impl LogReader {
     pub fn read_next(&mut self) -> Result<Option<Slice>> {
         let mut tmp: Option<Vec<u8>> = None;
         loop {
-            if self.buf_read_idx >= self.buf_len {
+            // the rest of the block is a trailer, or the file is exhausted
+            if self.buf_len - self.buf_read_idx < K_HEADER_SIZE {
+                if self.eof {
+                    return Ok(None);
+                }
                 self.read_buf()?;
+                continue;
             }
             let data_len = (self.buf[self.buf_read_idx + 4] as usize) + ((self.buf[self.buf_read_idx + 5] as usize) << 8);
             let record_type = self.buf[self.buf_read_idx + 6];
@@ -87,10 +92,18 @@ impl LogReader {
 
     fn read_buf(&mut self) -> Result<()> {
         self.buf_read_idx = 0;
-        self.buf_len = self.file_reader.read(self.buf.as_mut())?;
-        if self.buf_len < K_BLOCK_SIZE {
-            self.eof = true;
+        self.buf_len = 0;
+        // stays set when the block can not be filled
+        self.eof = true;
+        while self.buf_len < K_BLOCK_SIZE {
+            match self.file_reader.read(&mut self.buf[self.buf_len..]) {
+                Ok(0) => return Ok(()),
+                Ok(n) => self.buf_len += n,
+                Err(e) if e.kind() == ErrorKind::Interrupted => {}
+                Err(e) => return Err(e.into()),
+            }
         }
+        self.eof = false;
         Ok(())
     }
 
-- 
2.43.0


From 987b722216e399f62b74e3fdbde28fba7eed5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 15/50] fix: log reader does not read past the block on a bad
 or truncated record length

---
 src/db/log_reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 81f4fef..0d14871 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -56,6 +56,14 @@ impl LogReader {
             }
             let data_len = (self.buf[self.buf_read_idx + 4] as usize) + ((self.buf[self.buf_read_idx + 5] as usize) << 8);
             let record_type = self.buf[self.buf_read_idx + 6];
+            if data_len > self.buf_len - self.buf_read_idx - K_HEADER_SIZE {
+                if self.eof {
+                    // the writer died in the middle of this record
+                    return Ok(None);
+                }
+                self.buf_read_idx = self.buf_len;
+                return Err(Status::wrapper(LevelError::KCorruption, "bad record length".into()));
+            }
             self.buf_read_idx += 7;
             // CRC check
             self.check_crc(data_len)?;
-- 
2.43.0


From 31bb93abdae2fa56d598bf27b04f078e2062d4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 16/50] fix: log reader takes exactly one fragment per header
 and rejects broken fragment sequences

---
 src/db/log_reader.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 0d14871..efa996b 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -68,6 +68,12 @@ impl LogReader {
             // CRC check
             self.check_crc(data_len)?;
             match record_type {
+                K_FULL_TYPE | K_FIRST_TYPE if tmp.is_some() => {
+                    return Err(Status::wrapper(LevelError::KCorruption, "partial record without end".into()));
+                }
+                K_MIDDLE_TYPE | K_LAST_TYPE if tmp.is_none() => {
+                    return Err(Status::wrapper(LevelError::KCorruption, "missing start of fragmented record".into()));
+                }
                 K_FULL_TYPE => {
                     let end_idx = self.buf_read_idx + data_len;
                     let data = &self.buf[self.buf_read_idx..end_idx];
@@ -76,11 +82,16 @@ impl LogReader {
                 }
                 K_FIRST_TYPE => {
                     tmp = Some(Vec::with_capacity(K_BLOCK_SIZE));
-                    let partial_data = &self.buf[self.buf_read_idx..];
+                    let end_idx = self.buf_read_idx + data_len;
+                    let partial_data = &self.buf[self.buf_read_idx..end_idx];
+                    self.buf_read_idx += data_len;
                     tmp.as_mut().unwrap().write(partial_data)?;
                 }
                 K_MIDDLE_TYPE => {
-                    tmp.as_mut().unwrap().write(self.buf.as_ref())?;
+                    let end_idx = self.buf_read_idx + data_len;
+                    let partial_data = &self.buf[self.buf_read_idx..end_idx];
+                    self.buf_read_idx += data_len;
+                    tmp.as_mut().unwrap().write(partial_data)?;
                 }
                 K_LAST_TYPE => {
                     let end_idx = self.buf_read_idx + data_len;
-- 
2.43.0


From 812766726029e927b47f3e5ab21351c5c84ed096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 17/50] fix: log reader skips records that begin before the
 initial offset

---
 src/db/log_reader.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index efa996b..c3c9695 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -17,6 +17,10 @@ pub struct LogReader {
     buf: [u8; K_BLOCK_SIZE],
     buf_len: usize,
     buf_read_idx: usize,
+    /// records that begin before this position are skipped
+    initial_offset: usize,
+    /// true until a record that begins at or after initial_offset is found
+    resyncing: bool,
 }
 
 pub trait SeekableReader: Read + Seek {}
@@ -40,6 +44,8 @@ impl LogReader {
             buf: [0; K_BLOCK_SIZE],
             buf_len: 0,
             buf_read_idx: 0,
+            initial_offset,
+            resyncing: initial_offset > 0,
         }
     }
 
@@ -54,6 +60,7 @@ impl LogReader {
                 self.read_buf()?;
                 continue;
             }
+            let record_start = self.read_pos - self.buf_len + self.buf_read_idx;
             let data_len = (self.buf[self.buf_read_idx + 4] as usize) + ((self.buf[self.buf_read_idx + 5] as usize) << 8);
             let record_type = self.buf[self.buf_read_idx + 6];
             if data_len > self.buf_len - self.buf_read_idx - K_HEADER_SIZE {
@@ -67,6 +74,13 @@ impl LogReader {
             self.buf_read_idx += 7;
             // CRC check
             self.check_crc(data_len)?;
+            if self.resyncing {
+                if record_start < self.initial_offset || record_type == K_MIDDLE_TYPE || record_type == K_LAST_TYPE {
+                    self.buf_read_idx += data_len;
+                    continue;
+                }
+                self.resyncing = false;
+            }
             match record_type {
                 K_FULL_TYPE | K_FIRST_TYPE if tmp.is_some() => {
                     return Err(Status::wrapper(LevelError::KCorruption, "partial record without end".into()));
@@ -117,7 +131,10 @@ impl LogReader {
         while self.buf_len < K_BLOCK_SIZE {
             match self.file_reader.read(&mut self.buf[self.buf_len..]) {
                 Ok(0) => return Ok(()),
-                Ok(n) => self.buf_len += n,
+                Ok(n) => {
+                    self.buf_len += n;
+                    self.read_pos += n;
+                }
                 Err(e) if e.kind() == ErrorKind::Interrupted => {}
                 Err(e) => return Err(e.into()),
             }
-- 
2.43.0


From 176a8147f17c1f8256938ca1020922394e922b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 18/50] fix: log reader resumes at a trustworthy fragment
 boundary after reporting an error

---
 src/db/log_reader.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index c3c9695..c38b2ce 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -73,7 +73,11 @@ impl LogReader {
             }
             self.buf_read_idx += 7;
             // CRC check
-            self.check_crc(data_len)?;
+            if let Err(e) = self.check_crc(data_len) {
+                // the length can not be trusted either: drop the rest of the block
+                self.buf_read_idx = self.buf_len;
+                return Err(e);
+            }
             if self.resyncing {
                 if record_start < self.initial_offset || record_type == K_MIDDLE_TYPE || record_type == K_LAST_TYPE {
                     self.buf_read_idx += data_len;
@@ -83,9 +87,12 @@ impl LogReader {
             }
             match record_type {
                 K_FULL_TYPE | K_FIRST_TYPE if tmp.is_some() => {
+                    // this fragment starts the next record
+                    self.buf_read_idx -= 7;
                     return Err(Status::wrapper(LevelError::KCorruption, "partial record without end".into()));
                 }
                 K_MIDDLE_TYPE | K_LAST_TYPE if tmp.is_none() => {
+                    self.buf_read_idx += data_len;
                     return Err(Status::wrapper(LevelError::KCorruption, "missing start of fragmented record".into()));
                 }
                 K_FULL_TYPE => {
@@ -116,6 +123,7 @@ impl LogReader {
                     return Ok(Some(Slice::from_vec(data)));
                 }
                 _ => {
+                    self.buf_read_idx += data_len;
                     return Err(Status::wrapper(LevelError::KCorruption,
                                                format!("bad record_type: {}", record_type).into()));
                 }
-- 
2.43.0


From 795c5177acec3a9f5cf495b7a0e7cb6667268c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 19/50] fix: starting a block at or beyond offset 2048
 terminates

---
 src/table/filter_block.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 9f0fb38..b6eda9b 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -157,11 +157,10 @@ impl FilterBlock for FilterBlockBuilder {
         // 计算出需要创建的filter的总数目. filters_number ==> filter_index
         let filters_number = block_offset / (FILTER_BASE as u64);
 
-        let len = self.filter_offsets.len() as u64;
-        assert!(filters_number >= len);
+        assert!(filters_number >= self.filter_offsets.len() as u64);
 
         // 当已经生成的filter的数目小于需要生成的filter的总数时，那么就继续创建filter。
-        while filters_number > len {
+        while filters_number > self.filter_offsets.len() as u64 {
             self.generate_new_filter();
         }
     }
-- 
2.43.0


From 211e569e928efd3a16327518d64e1260775418e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 20/50] fix: filter blocks accept keys that are not valid UTF-8

---
 src/table/filter_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index b6eda9b..1d6c718 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -172,7 +172,7 @@ impl FilterBlock for FilterBlockBuilder {
     fn add_key(&mut self, key: &Slice) {
         // start_记录key在keys的offset，因此可以还原出key
         self.start.push(self.keys.len());
-        self.keys.write(key.as_str().as_bytes()).expect("add_key error!");
+        self.keys.write(key.as_ref()).expect("add_key error!");
     }
 
     fn finish(&mut self) -> Result<Slice> {
-- 
2.43.0


From 6995a139cbe98ae6d127ab1685ca15ae6a7166e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:49 +0000
Subject: [PATCH 21/50] fix: finishing a filter block appends the offsets
 instead of overwriting the filters

---
 src/table/filter_block.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 1d6c718..f1442d1 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -184,9 +184,9 @@ impl FilterBlock for FilterBlockBuilder {
         let array_offset = self.result.len() as u32;
 
         // 当前需要写入的位置。result 中可能存在数据，因此为 offset ==> self.result.len()  的位置
-        let dst: &mut Vec<u8> = &mut self.result;
-        // let mut dst_append = self.result.as_mut_slice();
-        let mut encoder = Encoder::with_vec(dst);
+        // encoder 总是从 buffer 的 0 位置开始写, 因此先写入临时 buffer 再追加
+        let mut offsets: Vec<u8> = vec![];
+        let mut encoder = Encoder::with_vec(&mut offsets);
         for i in 0..self.filter_offsets.len() {
             encoder.put_fixed32(self.filter_offsets[i])?;
         }
@@ -194,6 +194,7 @@ impl FilterBlock for FilterBlockBuilder {
 
         // Save encoding parameter in result
         encoder.put_varint64(FILTER_BASE_LG as u64)?;
+        self.result.append(&mut offsets);
 
         Ok(Slice::from_buf(&self.result))
     }
-- 
2.43.0


From 0c5c265f00139c0628cc657ff1958a7c880a8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 22/50] fix: shortest separator keeps the whole start key when
 it can not be shortened

---
 src/util/comparator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/comparator.rs b/src/util/comparator.rs
index 661a930..ca84886 100644
--- a/src/util/comparator.rs
+++ b/src/util/comparator.rs
@@ -78,10 +78,11 @@ impl Comparator for BytewiseComparatorImpl {
                 // 则将 start 差异字符位置+1的元素变更为 差异字符的next
                 (diff_byte + 1) < limit_char_vec[diff_index] {
                 start_char_vec[diff_index] = diff_byte + 1;
+                start_char_vec.truncate(diff_index + 1);
             }
         }
 
-        let shortest_separator: &[u8] = &start_char_vec[0..diff_index + 1];
+        let shortest_separator: &[u8] = &start_char_vec;
         let shortest_separator_val: String = Slice::from_buf(shortest_separator).into();
         shortest_separator_val
     }
-- 
2.43.0


From e1de9b8947086d1779627984a02ddec884b30358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 23/50] fix: mutable indexing of a slice by a range respects
 the range's start

---
 src/util/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index 215e17f..a108b17 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -240,7 +240,7 @@ impl core::ops::IndexMut<Range<usize>> for Slice {
     /// 获取指定下标范围的数据
     fn index_mut(&mut self, index: Range<usize>) -> &mut Self::Output {
         assert!(index.end <= self.size());
-        &mut (**self)[..index.end]
+        &mut (**self)[index.start..index.end]
     }
 }
 
-- 
2.43.0


From 0d9fcb2d5bd61c469156fad403337a1e5d90b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 24/50] fix: an arena without blocks serves a zero-size request

---
 src/util/arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index d239b48..c436812 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -56,7 +56,7 @@ impl Arena {
     }
 
     pub fn allocate_align(&mut self, bytes: usize, align: usize) -> &mut [u8] {
-        if bytes <= self.alloc_bytes_remaining {
+        if self.alloc_ptr.is_some() && bytes <= self.alloc_bytes_remaining {
             self.alloc_bytes_remaining -= bytes;
             let result = unsafe { slice::from_raw_parts_mut(self.alloc_ptr.unwrap().as_ptr(), bytes) };
             unsafe {
-- 
2.43.0


From 5aa6da3834ce8b1541bcb2b082bc8f78a6b0ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 25/50] fix: a slice copied with an arena does not own the
 arena's memory

---
 src/util/arena.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index c436812..737303b 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -116,12 +116,11 @@ impl Drop for Arena {
 
 impl ArenaAllocLike for Slice {
     fn copy_with_arena(&self, arena: ArenaRef) -> Self {
-        unsafe {
-            let mut lock_guard = arena.lock().unwrap();
-            let dst = lock_guard.allocate(self.len());
-            let src = &**self;
-            dst.copy_from_slice(src);
-            Slice::from_raw_parts(dst.as_mut_ptr(), self.len())
-        }
+        let mut lock_guard = arena.lock().unwrap();
+        let dst = lock_guard.allocate(self.len());
+        let src = &**self;
+        dst.copy_from_slice(src);
+        // Slice 拥有并释放自己的内存, 不能持有 arena 的内存
+        Slice::from_buf(dst)
     }
 }
\ No newline at end of file
-- 
2.43.0


From d6c701364c4e5761f6e68eaf9b58bebf45e3eabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 26/50] fix: new_with_arena returns the bytes it copied

---
 src/util/unsafe_slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index c48d2bb..d554373 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -27,8 +27,8 @@ impl UnsafeSlice {
     pub fn new_with_arena<B: AsRef<[u8]>>(data: B, arena: ArenaRef) -> Result<Self> {
         let mut lock = arena.lock()?;
         let src = data.as_ref();
-        let mut buf = lock.allocate(src.len());
-        buf.write(src)?;
+        let buf = lock.allocate(src.len());
+        buf.copy_from_slice(src);
         Ok(Self {
             ptr: buf.as_mut_ptr(),
             len: buf.len(),
-- 
2.43.0


From c51f41258997a63bef57db24d348fd3709e2a5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 27/50] fix: sub_slice accepts sub-ranges that reach the end

---
 src/util/unsafe_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index d554373..6ad27b8 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -54,7 +54,7 @@ impl UnsafeSlice {
 
     /// 返回子串。这个方法是高效的，在内部只复制了裸指针偏的移量。
     pub unsafe fn sub_slice(&self, start: usize, len: usize) -> Self {
-        assert!(start + len < self.len, "sub_slice out of range");
+        assert!(start <= self.len && len <= self.len - start, "sub_slice out of range");
         Self {
             ptr: self.ptr.offset(start as isize),
             len,
-- 
2.43.0


From fc1199236292b6229156dd8a1620e1a2c811b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 28/50] fix: to_slice copies the bytes

---
 src/util/unsafe_slice.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index 6ad27b8..edfe41e 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -64,10 +64,7 @@ impl UnsafeSlice {
     /// 生成 Slice 串，由于 Slice 是内存安全的，所以实现上会有内存拷贝。
     /// 高性能场景优先考虑 UnsafeSlice
     pub fn to_slice(&self) -> Slice {
-        unsafe {
-            let raw_ptr = alloc(Layout::from_size_align_unchecked(self.len, 8));
-            Slice::from_raw_parts(raw_ptr, self.len)
-        }
+        Slice::from_buf(self.as_ref())
     }
 }
 
-- 
2.43.0


From e8cc0d62fd4e7f8d8737ba4e8cde622dae16fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 29/50] fix: iterating an empty skip list ends instead of
 following uninitialised pointers

---
 src/db/skip_list.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index bdda3e3..9d0d3ab 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -54,11 +54,17 @@ pub struct Iter<Cmp: Comparator> {
 
 impl<Cmp: Comparator> SkipList<Cmp> {
     pub fn create(comparator: Arc<Cmp>, arena: ArenaRef) -> Self {
+        let head = Node::create_head(arena.clone());
+        let tail = Node::create_tail();
+        // 空表的头节点在每一层都指向尾节点
+        for l in 0..MAX_LEVEL {
+            unsafe { (&mut *head).set_node(l, tail) };
+        }
         Self {
             height: 0,
             num: 0,
-            head: Node::create_head(arena.clone()),
-            tail: Node::create_tail(),
+            head,
+            tail,
             cmp: comparator,
             arena,
         }
-- 
2.43.0


From 54c42325b917bc1de129031838ce1bb6ae1e7c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 30/50] fix: skip list towers do not assume that the arena
 aligns them

---
 src/db/skip_list.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 9d0d3ab..82996a4 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -350,13 +350,13 @@ impl Node {
     #[must_use]
     unsafe fn get_node(&self, level: usize) -> RawNode {
         assert!(level < MAX_LEVEL);
-        self.next_elems.offset(level as isize).read()
+        self.next_elems.offset(level as isize).read_unaligned()
     }
 
     #[inline]
     unsafe fn set_node(&mut self, level: usize, node: RawNode) {
         assert!(level < MAX_LEVEL);
-        self.next_elems.offset(level as isize).write(node);
+        self.next_elems.offset(level as isize).write_unaligned(node);
     }
 
     /// 找到最后一个数据元素
-- 
2.43.0


From e4700b3d2d05e8b7afdedc9dcd63188861f145b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 31/50] fix: a skip list iterator is valid when it is at an
 entry

---
 src/db/skip_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 82996a4..97f738d 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -447,7 +447,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn valid(&self) -> bool {
         unsafe {
-            (&*self.current).is_head_or_tail()
+            !(&*self.current).is_head_or_tail()
         }
     }
 
-- 
2.43.0


From 1af7e48d05e465bd3805676e4c9906284063afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 32/50] fix: seek_to_last finds the last entry from any
 position and on any tower heights

---
 src/db/skip_list.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 97f738d..ac7d5da 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -360,25 +360,19 @@ impl Node {
     }
 
     /// 找到最后一个数据元素
-    unsafe fn seek_to_last(&self) -> Option<RawNode> {
-        if self.is_tail() {
-            return None;
-        }
-        let mut pre = self;
-        let mut cur = &*self.next_top_node();
-        loop {
-            if cur.is_tail() {
-                return Some(pre as *const Node as *mut Node);
+    /// 从头节点开始逐层向后查找, 空表返回头节点
+    unsafe fn seek_to_last(&self) -> RawNode {
+        let mut current = self;
+        for l in (0..self.level).rev() {
+            loop {
+                let next = &*current.get_node(l);
+                if next.is_tail() {
+                    break;
+                }
+                current = next;
             }
-            pre = cur;
-            cur = &*cur.next_top_node();
         }
-    }
-
-    /// 找到最上层的下一个元素
-    #[inline]
-    unsafe fn next_top_node(&self) -> RawNode {
-        self.get_node(self.level - 1)
+        current as *const Node as *mut Node
     }
 }
 
@@ -461,7 +455,8 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn seek_to_last(&mut self) {
         unsafe {
-            self.current = (&*self.current).seek_to_last().unwrap_or(self.tail)
+            let last = (&*self.head).seek_to_last();
+            self.current = if (&*last).is_head() { self.tail } else { last };
         }
     }
 
-- 
2.43.0


From d3d0e2ded63c40af73eda0ac659f13a8fd113193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 33/50] fix: adding to a memtable does not lock its arena twice

---
 src/db/mem_table.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index 7b7804c..976d83e 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -74,9 +74,8 @@ impl<Cmp: Comparator> MemTable<Cmp> {
             + internal_key_size
             + varint_length(value_size as u64)
             + value_size;
-        let mut lock = self.arena.lock()?;
-        let buf = lock.allocate(encoded_len);
-        let mut encoder = Encoder::with_buf(buf);
+        let mut buf = vec![0_u8; encoded_len];
+        let mut encoder = Encoder::with_buf(buf.as_mut_slice());
         // 需要保证写入的数据不会超过buf.len(), 否则溢出
         unsafe {
             // write key size
-- 
2.43.0


From 4519b48cd3eb3f7b9ac872b924140afad99720f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 34/50] fix: memtable entries hold the value's length and
 reserve room for the key's length as encoded

---
 src/db/mem_table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index 976d83e..94b7e42 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -70,7 +70,7 @@ impl<Cmp: Comparator> MemTable<Cmp> {
         let key_size = key_buf.len();
         let value_size = value_buf.len();
         let internal_key_size = key_size + 8;
-        let encoded_len = varint_length(key_size as u64)
+        let encoded_len = varint_length(internal_key_size as u64)
             + internal_key_size
             + varint_length(value_size as u64)
             + value_size;
@@ -84,6 +84,8 @@ impl<Cmp: Comparator> MemTable<Cmp> {
             encoder.uncheck_put_buf(key_buf);
             // write seq_no and type
             encoder.uncheck_put_fixed64((seq_no << 8 | v_type.get_value()) as u64);
+            // write value size
+            encoder.uncheck_put_varint32(value_size as u32);
             // write value slice
             encoder.uncheck_put_buf(value_buf);
         }
-- 
2.43.0


From fc4dbc9ab3a9bc6a4fd9db4c4fea0029df5043a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 35/50] fix: lookup keys are encoded into an initialised
 buffer, with the internal key's length in front

---
 src/db/db_format.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 4b4a7c7..df70e5b 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -256,15 +256,13 @@ impl LookupKey {
     /// the specified sequence number.
     pub fn new(user_key: Slice, sequence: usize) -> Self {
         let user_key_size = user_key.size();
-        let need = user_key_size + 13; // A conservative estimate
-        let mut data = Vec::with_capacity(need);
-        let buf = data.as_mut_slice();
-        let mut encoder = Encoder::with_buf(buf);
-        // write key size
         let klength = varint_length((user_key_size + 8) as u64);
+        let mut data = vec![0_u8; klength + user_key_size + 8];
+        let mut encoder = Encoder::with_buf(data.as_mut_slice());
+        // write key size
         // 需要保证写入的数据不会超过buf.len(), 否则会溢出
         unsafe {
-            encoder.uncheck_put_varint32(klength as u32);
+            encoder.uncheck_put_varint32((user_key_size + 8) as u32);
             // write key slice
             encoder.uncheck_put_buf(user_key.as_ref());
             // write sequence number and value type
-- 
2.43.0


From 41e4b03db88e879bc94f641c7814218baa4194f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 36/50] fix: removing the head of a cache hash chain makes the
 next entry the head

---
 src/util/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index e15d7de..fe09ee2 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -220,7 +220,9 @@ impl<T> HandleTable<T> {
                     // 是头节点, 将头节点移交至下一节点
                     self.list[index] = handle_mut.next_hash;
                     // 下一节点的prev_hash要置空
-                    handle_mut.prev_hash = None;
+                    if let Some(mut next_hash) = handle_mut.next_hash {
+                        unsafe { next_hash.as_mut() }.prev_hash = None;
+                    }
                 } else {
                     // 是其余中间节点或尾节点, 删除当前节点并将下一节点移交给上一节点
                     let prev_hash_ptr = unsafe { handle_mut.prev_hash.unwrap().as_mut() };
-- 
2.43.0


From e9754bef205d218a50758a84de2554fa62699938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 37/50] fix: cache entries are freed after the last use of
 their memory

---
 src/util/cache.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index fe09ee2..79c5d77 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -233,8 +233,7 @@ impl<T> HandleTable<T> {
                         next_hash_ptr.prev_hash = handle_mut.prev_hash;
                     }
                 }
-                // 回收内存
-                Self::drop_handle(handle.as_ptr());
+                // 此时lru链表仍然引用handle, 由调用方在断开lru链表后回收内存
                 self.elements -= 1;
                 return Ok(Some(handle));
             }
@@ -432,6 +431,7 @@ impl<T> LRUCache<T> {
                 self.lru_remove(tail)?;
                 // 于从hash表中删除链表尾, 同时回收内存
                 self.table.remove(&tail_ref.key, tail_ref.hash)?;
+                HandleTable::drop_handle(tail.as_ptr());
             }
         }
 
@@ -465,6 +465,7 @@ impl<T> LRUCache<T> {
             // 再删除lru链表中的数据
             self.lru_remove(removed)?;
             charge = unsafe { removed.as_ref().charge };
+            HandleTable::drop_handle(removed.as_ptr());
         }
 
         // 返回删除了多少数据量
-- 
2.43.0


From 816e272fac573b65db32f73f6d3bdfe501fd2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 38/50] fix: inserting an existing key into the cache replaces
 its entry

---
 src/util/cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 79c5d77..ab40cd2 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -411,6 +411,8 @@ impl<T> LRUCache<T> {
     ///
     /// ```
     pub fn insert(&mut self, key: Slice, hash: u32, value: T, charge: usize) -> Result<()> {
+        // 相同的键先删除旧数据
+        self.erase(&key, hash)?;
         let handle = LRUHandle::new_on_heap(
             key.clone(),
             value,
-- 
2.43.0


From 4336fdeafd8a056ee771a7aa4aea9f533b682bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 39/50] fix: the cache evicts until it is within its capacity

---
 src/util/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index ab40cd2..dfe6c1b 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -426,7 +426,7 @@ impl<T> LRUCache<T> {
         self.usage += charge;
 
         // 使用量已经达到容量, 那么删除最少使用的
-        if self.usage >= self.capacity {
+        while self.usage >= self.capacity {
             if let Some(tail) = self.tail_of_lru {
                 let tail_ref = unsafe { tail.as_ref() };
                 // 先删除lru链表尾
@@ -434,6 +434,8 @@ impl<T> LRUCache<T> {
                 // 于从hash表中删除链表尾, 同时回收内存
                 self.table.remove(&tail_ref.key, tail_ref.hash)?;
                 HandleTable::drop_handle(tail.as_ptr());
+            } else {
+                break;
             }
         }
 
-- 
2.43.0


From b75758f1ac1cf255f41dbfaf92c5d6f2c4c48fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 40/50] fix: pruning the cache frees every entry of each hash
 chain

---
 src/util/cache.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index dfe6c1b..fdfb0cd 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -245,9 +245,13 @@ impl<T> HandleTable<T> {
 
     /// 清空hash表 并回收内存
     pub fn prune(&mut self) {
-        for handle in self.list.iter().filter(|v| v.is_some()) {
-            // 回收内存
-            Self::drop_handle(handle.unwrap().as_ptr());
+        for head in self.list.iter() {
+            // 回收整个链表的内存
+            let mut current = *head;
+            while let Some(handle) = current {
+                current = unsafe { handle.as_ref() }.next_hash;
+                Self::drop_handle(handle.as_ptr());
+            }
         }
         // 清空list恢复内存
         self.list.clear();
-- 
2.43.0


From 1771d527323f1cf3129ced128200117d3b978da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 41/50] fix: dropping the cache frees its entries

---
 src/util/cache.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index fdfb0cd..84f1b9c 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -567,6 +567,13 @@ impl<T> LRUCache<T> {
     }
 }
 
+impl<T> Drop for LRUCache<T> {
+    /// 释放仍在缓存中的数据
+    fn drop(&mut self) {
+        self.table.prune();
+    }
+}
+
 macro_rules! cache_element {
     ($shard:expr, $capacity:expr, $default_length:expr) => (RwLock::new(LRUCache::new_with_capacity($shard, pre_shard($capacity), $default_length)));
 }
-- 
2.43.0


From 7c72e7149b12dcd1beb506483f20191be4ac8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 42/50] fix: cache capacities close to usize::MAX do not
 overflow

---
 src/util/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 84f1b9c..35dc1d5 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -632,7 +632,7 @@ fn shard(hash: u32) -> usize {
 
 #[inline]
 fn pre_shard(capacity: usize) -> usize {
-    (capacity + (K_NUM_SHARDS - 1)) / K_NUM_SHARDS
+    capacity / K_NUM_SHARDS + (capacity % K_NUM_SHARDS != 0) as usize
 }
 
 /// 所有权可以多线程传递
-- 
2.43.0


From 279d5bfb34fe82268865680f5d5e9e8b3fcda2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 43/50] fix: looking an entry up makes it the most recently
 used

---
 src/util/cache.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 35dc1d5..33777cc 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -447,11 +447,19 @@ impl<T> LRUCache<T> {
     }
 
     /// 从lru缓存查询数据
-    pub fn look_up(&self, key: &Slice, hash: u32) -> Result<Option<Arc<T>>> {
+    pub fn look_up(&mut self, key: &Slice, hash: u32) -> Result<Option<Arc<T>>> {
         match self.table.look_up(key, hash) {
             Ok(handle) => {
                 match handle {
-                    Some(handle) => {
+                    Some(mut handle) => {
+                        // 移动到lru链表头, 标记为最近使用
+                        self.lru_remove(handle)?;
+                        let handle_mut = unsafe { handle.as_mut() };
+                        handle_mut.prev = None;
+                        handle_mut.next = None;
+                        handle_mut.in_cache = true;
+                        self.usage += handle_mut.charge;
+                        self.lru_append(handle)?;
                         // 返回为Arc<T>, 这样用户才可以和缓存在多个线程中共享数据
                         Ok(Some(unsafe { handle.as_ref() }.value.clone()))
                     }
@@ -686,7 +694,7 @@ impl<T> ShardLRUCache<T> {
 
 
     /// 创建ShardLruCache多线程使用
-    /// lookUp会加读锁, insert/erase/prune等写操作会加写锁
+    /// lookUp会更新lru链表, 与insert/erase/prune等写操作一样会加写锁
     /// 持有写锁的线程panic后, 会导致锁中毒, 数据无法访问, 持有读锁线程panic不会中毒
     ///
     /// # Arguments
@@ -765,7 +773,7 @@ impl<T> ShardLRUCache<T> {
     pub fn lookup(&self, key: &Slice) -> Result<Option<Arc<T>>> {
         let hash = hash_slice(key);
         let shard = shard(hash);
-        self.shard[shard].read()?.look_up(key, hash)
+        self.shard[shard].write()?.look_up(key, hash)
     }
 
     /// 从shard中删除缓存数据
-- 
2.43.0


From d215a54367333fd50d1e48433b9a1774ab5f7796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 44/50] fix: the standard deviation is not NaN when rounding
 makes the variance negative

---
 src/util/histogram.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/histogram.rs b/src/util/histogram.rs
index f5d76ca..3155d9d 100644
--- a/src/util/histogram.rs
+++ b/src/util/histogram.rs
@@ -387,7 +387,8 @@ impl Histogram {
             return 0.0;
         }
         let variance = (self.sum_squares * self.num - self.sum * self.sum) / (self.num * self.num);
-        return variance.sqrt();
+        // 舍入误差可能使方差为很小的负数
+        return variance.max(0.0).sqrt();
     }
 }
 
-- 
2.43.0


From 25e451d4ead85be2a1f193799744d0e8def89352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 45/50] fix: dropping a linked list frees its nodes

---
 src/util/linked_list.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/util/linked_list.rs b/src/util/linked_list.rs
index 8ffb8e6..9507128 100644
--- a/src/util/linked_list.rs
+++ b/src/util/linked_list.rs
@@ -243,6 +243,17 @@ impl<T> Node<T> {
     }
 }
 
+impl<T> Drop for LinkedList<T> {
+    /// 释放所有节点
+    fn drop(&mut self) {
+        let mut cur = self.head.take();
+        while let Some(node) = cur {
+            let node = unsafe { Box::from_raw(node.as_ptr()) };
+            cur = node.next;
+        }
+    }
+}
+
 impl<T> Default for LinkedList<T> {
     /// 构造空的双向链表
     fn default() -> Self {
-- 
2.43.0


From 2e8fcc8b8164fb982436559402f1971c9b601dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 46/50] fix: version edits encode the comparator name and the
 keys they hold

---
 src/db/db_format.rs    |  5 +++++
 src/db/version_edit.rs | 12 ++++--------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index df70e5b..1cd9558 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -187,6 +187,11 @@ impl InternalKey {
         self.rep_
     }
 
+    /// 编码后的数据
+    pub fn as_slice(&self) -> &Slice {
+        &self.rep_
+    }
+
     /// 取得  Slice的长度
     pub fn encode_len(&self) -> usize {
         self.rep_.size()
diff --git a/src/db/version_edit.rs b/src/db/version_edit.rs
index ec0a502..6388b83 100644
--- a/src/db/version_edit.rs
+++ b/src/db/version_edit.rs
@@ -205,9 +205,7 @@ impl VersionEdit {
         let mut encoder = Encoder::with_vec(target);
         if self.has_comparator_ {
             encoder.put_varint32(Tag::k_comparator.get_value() as u32)?;
-            encoder.put_varint32(self.comparator_.len() as u32)?;
-            // fixme 需要正确使用 put_length_prefixed_slice  将slice长度及slice内容编码到target
-            // encoder.put_length_prefixed_slice(self.comparator_.len())?;
+            encoder.put_length_prefixed_slice(&Slice::from_buf(self.comparator_.as_bytes()))?;
         }
         if self.has_log_number_ {
             encoder.put_varint32(Tag::kLogNumber.get_value() as u32)?;
@@ -232,8 +230,7 @@ impl VersionEdit {
         for i in 0..self.compact_pointers_.len() {
             encoder.put_varint32(Tag::kCompactPointer.get_value() as u32)?;
             encoder.put_varint32(self.compact_pointers_[i].0)?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( self.compact_pointers_[i].1.encode_len())?;
+            encoder.put_length_prefixed_slice(self.compact_pointers_[i].1.as_slice())?;
         }
 
         for i in 0..self.deleted_files_.len() {
@@ -249,9 +246,8 @@ impl VersionEdit {
             encoder.put_varint32(self.new_files_[i].0)?;
             encoder.put_varint64(f.get_number())?;
             encoder.put_varint64(f.get_file_size())?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( f.get_smallest().encode_len())?;
-            // encoder.put_length_prefixed_slice( f.get_largest().encode_len())?;
+            encoder.put_length_prefixed_slice(f.get_smallest().as_slice())?;
+            encoder.put_length_prefixed_slice(f.get_largest().as_slice())?;
         }
         Ok(())
     }
-- 
2.43.0


From c6064ad025f730040e8d604b3cb420caa579eabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 47/50] hooks: internal keys with given contents

---
 src/db/db_format.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 1cd9558..0e6ca99 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -187,6 +187,12 @@ impl InternalKey {
         self.rep_
     }
 
+    /// An internal key with the given contents, for the verification harness
+    #[cfg(verif_hooks)]
+    pub fn verif_from(rep: Slice) -> Self {
+        Self { rep_: rep }
+    }
+
     /// 编码后的数据
     pub fn as_slice(&self) -> &Slice {
         &self.rep_
-- 
2.43.0


From be62c634df165f3eae5dd1a5b6e4cd562d363b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 48/50] fix: a prefix longer than the slice is not a prefix
 instead of a crash

---
 src/util/slice.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index a108b17..433f247 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -79,7 +79,6 @@ impl Slice {
 
     /// 判断本 Slice 是否以 other 为开始
     pub fn starts_with(&self, other: &Self) -> bool {
-        assert!(other.size() <= self.size());
         if other.size() == 0 {
             return true;
         }
-- 
2.43.0


From 1ef1e795f9d64d15312ed3ee25061fe5da14134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 49/50] fix: an array macro length that is not an integer
 literal is refused instead of taken for 0

---
 custom_proc_macro/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/custom_proc_macro/src/lib.rs b/custom_proc_macro/src/lib.rs
index 868ee8c..a19f6f2 100644
--- a/custom_proc_macro/src/lib.rs
+++ b/custom_proc_macro/src/lib.rs
@@ -28,13 +28,15 @@ pub fn arr(input: TokenStream) -> TokenStream {
     let repeat_expr: ExprRepeat = parse(input)
         .expect("Like arr!([Test::new(); 16])");
 
-    let mut len = 0;
+    let mut len = None;
     // 获取表达式中的长度信息并转为usize
     if let Expr::Lit(expr_lit) = repeat_expr.len.deref() {
         if let Lit::Int(int_lit) = &expr_lit.lit {
-            len = int_lit.base10_parse::<usize>().expect("Failed to parse integer literal");
+            len = Some(int_lit.base10_parse::<usize>().expect("Failed to parse integer literal"));
         }
     }
+    // 长度不是整数字面量时无法展开, 不能当作0处理
+    let len = len.expect("The length must be an integer literal, like arr!([Test::new(); 16])");
     // 解析并拼接成数组
     let _expr = repeat_expr.expr;
     // 1.生成数组的集合
-- 
2.43.0


From e5069c56327facaf311326d9c841233b4f650437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 50/50] fix: a refused skip list insertion leaves no partly
 linked node behind

---
 src/db/skip_list.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index ac7d5da..39bb5c0 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -157,6 +157,15 @@ impl<Cmp: Comparator> SkipList<Cmp> {
                             return Ok(());
                         }
                         None => {
+                            // 撤销已经在上层建立的链接, 插入失败时不能留下未完成的节点
+                            for upper in (l + 1..self.height).filter(|upper| *upper <= node_top_level) {
+                                let mut prev = self.head;
+                                while (&*prev).get_node(upper) != node_ptr {
+                                    prev = (&*prev).get_node(upper);
+                                }
+                                (&mut *prev).set_node(upper, node.get_node(upper));
+                            }
+                            drop(Box::from_raw(node_ptr));
                             return Err(Status::wrapper(LevelError::KInvalidArgument, "key not comparable".into()));
                         }
                     }
-- 
2.43.0

