From d125d7417b7156c71ea84675558a435be8990689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 01/15] fix: report writer errors that occur while writing text
 labels

---
 core/src/text.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index 8d4aa75..1b4c7cb 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -155,10 +155,11 @@ impl<W: Write> TextEncoder<W> {
         struct GroupVisitor<'a, W> {
             first: bool,
             writer: &'a mut W,
+            // label groups discard the output of each visit, so the first error is kept here.
+            result: Result<(), std::io::Error>,
         }
-        impl<W: Write> LabelGroupVisitor for GroupVisitor<'_, W> {
-            type Output = Result<(), std::io::Error>;
-            fn write_value(
+        impl<W: Write> GroupVisitor<'_, W> {
+            fn try_write_value(
                 &mut self,
                 name: &LabelName,
                 x: &impl LabelValue,
@@ -175,6 +176,14 @@ impl<W: Write> TextEncoder<W> {
                 })
             }
         }
+        impl<W: Write> LabelGroupVisitor for GroupVisitor<'_, W> {
+            type Output = ();
+            fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
+                if self.result.is_ok() {
+                    self.result = self.try_write_value(name, x);
+                }
+            }
+        }
 
         self.state = State::Metrics;
         name.encode_utf8(&mut self.writer)?;
@@ -182,8 +191,10 @@ impl<W: Write> TextEncoder<W> {
         let mut visitor = GroupVisitor {
             first: true,
             writer: &mut self.writer,
+            result: Ok(()),
         };
         labels.visit_values(&mut visitor);
+        visitor.result?;
         if !visitor.first {
             self.writer.write_all(b"}")?;
         }
-- 
2.43.0


From a2b5aa6b418b3e188ccafa0566da127aec51e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 02/15] fix: escape backslashes and line feeds in text help
 lines

---
 core/src/text.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index 1b4c7cb..3e672f7 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -6,7 +6,7 @@ use std::{
 };
 
 use bytes::{BufMut, Bytes, BytesMut};
-use memchr::memchr3_iter;
+use memchr::{memchr2_iter, memchr3_iter};
 
 use crate::{
     label::{LabelGroup, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor},
@@ -65,7 +65,7 @@ impl<W: Write> Encoding for TextEncoder<W> {
         self.writer.write_all(b"# HELP ")?;
         name.encode_utf8(&mut self.writer)?;
         self.writer.write_all(b" ")?;
-        self.writer.write_all(help.as_bytes())?;
+        write_help_str_value(help, &mut self.writer)?;
         self.writer.write_all(b"\n")?;
         Ok(())
     }
@@ -412,6 +412,20 @@ impl<T: MetricEncoding<TextEncoder<BytesWriter>>> MetricEncoding<BufferedTextEnc
     }
 }
 
+fn write_help_str_value(s: &str, b: &mut impl Write) -> io::Result<()> {
+    let mut i = 0;
+    for j in memchr2_iter(b'\\', b'\n', s.as_bytes()) {
+        b.write_all(&s.as_bytes()[i..j])?;
+        match s.as_bytes()[j] {
+            b'\\' => b.write_all(b"\\\\")?,
+            b'\n' => b.write_all(b"\\n")?,
+            _ => unreachable!(),
+        }
+        i = j + 1;
+    }
+    b.write_all(&s.as_bytes()[i..])
+}
+
 pub(crate) fn write_label_str_value(s: &str, b: &mut impl Write) -> io::Result<()> {
     let mut i = 0;
     for j in memchr3_iter(b'\\', b'"', b'\n', s.as_bytes()) {
-- 
2.43.0


From a54e4a40266db99a53613a925b28266556682d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 03/15] fix: print counts above i64::MAX as unsigned in the
 text format

---
 core/src/metric/group.rs |  1 +
 core/src/text.rs         | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/metric/group.rs b/core/src/metric/group.rs
index 7d8a26c..9782327 100644
--- a/core/src/metric/group.rs
+++ b/core/src/metric/group.rs
@@ -13,6 +13,7 @@ use super::{
 #[derive(Clone, Copy, Debug)]
 pub enum MetricValue {
     Int(i64),
+    UInt(u64),
     Float(f64),
 }
 
diff --git a/core/src/text.rs b/core/src/text.rs
index 3e672f7..d5a9f9b 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -203,6 +203,9 @@ impl<W: Write> TextEncoder<W> {
             MetricValue::Int(x) => self
                 .writer
                 .write_all(itoa::Buffer::new().format(x).as_bytes())?,
+            MetricValue::UInt(x) => self
+                .writer
+                .write_all(itoa::Buffer::new().format(x).as_bytes())?,
             MetricValue::Float(x) => self
                 .writer
                 .write_all(ryu::Buffer::new().format(x).as_bytes())?,
@@ -254,7 +257,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             enc.write_metric_value(
                 name.by_ref().with_suffix(Bucket),
                 labels.by_ref().compose_with(HistogramLabelLe { le }),
-                MetricValue::Int(val as i64),
+                MetricValue::UInt(val),
             )?;
         }
         let count = val + inf;
@@ -263,7 +266,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             labels
                 .by_ref()
                 .compose_with(HistogramLabelLe { le: f64::INFINITY }),
-            MetricValue::Int(count as i64),
+            MetricValue::UInt(count),
         )?;
         enc.write_metric_value(
             name.by_ref().with_suffix(Sum),
@@ -273,7 +276,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
         enc.write_metric_value(
             name.by_ref().with_suffix(Count),
             labels,
-            MetricValue::Int(count as i64),
+            MetricValue::UInt(count),
         )?;
         Ok(())
     }
@@ -296,7 +299,7 @@ impl<W: Write> MetricEncoding<TextEncoder<W>> for CounterState {
         enc.write_metric_value(
             &name,
             labels,
-            MetricValue::Int(self.count.load(core::sync::atomic::Ordering::Relaxed) as i64),
+            MetricValue::UInt(self.count.load(core::sync::atomic::Ordering::Relaxed)),
         )
     }
 }
-- 
2.43.0


From 1b68cf6acc151b91e02af0a6eff95274df6e6c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 04/15] fix: count NaN observations only in the +Inf bucket

---
 core/src/metric/histogram.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index 8937b77..6971add 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -155,7 +155,11 @@ impl<const N: usize> Thresholds<N> {
 impl<const N: usize> HistogramLockGuard<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        // NaN is not below any bound, it only counts towards +Inf
+        let bucket = self
+            .metadata()
+            .le
+            .partition_point(|le| x > *le || x.is_nan());
         self.inner.read().observe(bucket, x);
     }
 
@@ -175,7 +179,11 @@ impl<const N: usize> HistogramLockGuard<'_, N> {
 impl<const N: usize> HistogramMut<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(mut self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        // NaN is not below any bound, it only counts towards +Inf
+        let bucket = self
+            .metadata()
+            .le
+            .partition_point(|le| x > *le || x.is_nan());
         self.inner.get_mut().observe(bucket, x);
     }
 
-- 
2.43.0


From 5feef8f9b5c83a9db4d49930ab35f16e0fa204fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 05/15] fix: report the start time of the observed process, not
 of the observer

---
 process/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index c3707c8..f81fe58 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -58,7 +58,7 @@ impl ProcessCollector {
         let mut start_time = None;
         #[cfg(target_os = "linux")]
         if let Ok(boot_time) = procfs::boot_time_secs() {
-            if let Ok(stat) = procfs::process::Process::myself().and_then(|p| p.stat()) {
+            if let Ok(stat) = procfs::process::Process::new(pid).and_then(|p| p.stat()) {
                 start_time = Some(stat.starttime as i64 / clk_tck() + boot_time as i64);
             }
         }
-- 
2.43.0


From af0b7e95146ed18f518a0d7a0fc8ca3af7358736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 06/15] fix: a failed runtime registration no longer poisons
 the collector

---
 tokio/src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/tokio/src/lib.rs b/tokio/src/lib.rs
index b4ddd29..bf286a0 100644
--- a/tokio/src/lib.rs
+++ b/tokio/src/lib.rs
@@ -56,10 +56,9 @@ impl NamedRuntimesCollector {
 
     /// Inserts a `RuntimeCollector` with the given runtime.
     pub fn add(&self, rt: RuntimeMetrics, name: impl Into<Cow<'static, str>>) {
-        self.runtimes
-            .write()
-            .unwrap()
-            .push(RuntimeCollector::new(rt).with_name(name))
+        // user code runs before the lock is taken, so that a panic cannot poison it
+        let runtime = RuntimeCollector::new(rt).with_name(name);
+        self.runtimes.write().unwrap().push(runtime)
     }
 
     /// Inserts a `RuntimeCollector` for the current runtime.
@@ -71,10 +70,9 @@ impl NamedRuntimesCollector {
     /// `EnterGuard`. Calling this from within a thread created by `std::thread::spawn` (for example)
     /// will cause a panic unless that thread has an active `EnterGuard`.
     pub fn add_current(&self, name: impl Into<Cow<'static, str>>) {
-        self.runtimes
-            .write()
-            .unwrap()
-            .push(RuntimeCollector::current().with_name(name))
+        // this panics outside of a runtime, which must not poison the lock
+        let runtime = RuntimeCollector::current().with_name(name);
+        self.runtimes.write().unwrap().push(runtime)
     }
 }
 
-- 
2.43.0


From c04d99b517d68e312dd12c31dfd245918f51d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 07/15] fix: a protobuf family that failed to be written does
 not leak into the next one

---
 prometheus-proto/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index 6aa7b06..7ecd6a8 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -48,9 +48,11 @@ impl<W: Write> ProtoEncoder<W> {
             let varint_len = encoded_len_varint(len as u64);
             let offset = 10 - varint_len;
             encode_varint(len as u64, &mut &mut self.buf[offset..]);
-            self.writer.write_all(&self.buf[offset..])?;
+            let res = self.writer.write_all(&self.buf[offset..]);
 
+            // the family is done with, even if it could not be written
             self.buf.resize(10, 0);
+            res?;
         } else if self.buf.is_empty() {
             self.buf.resize(10, 0);
         }
-- 
2.43.0


From be5969d2e322275c887d246d3975829f3704bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 08/15] fix: a protobuf family without samples does not leak
 into the next one

---
 prometheus-proto/src/lib.rs | 57 ++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index 7ecd6a8..8f85c77 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -37,9 +37,25 @@ impl<W: Write> ProtoEncoder<W> {
     /// Finish the text encoding and extract the bytes to send in a HTTP response.
     pub fn flush(&mut self) -> std::io::Result<()> {
         self.flush_buf()?;
+        self.state = State::Init;
         self.writer.flush()
     }
 
+    /// Start a family, keeping the help text only if it was written for this very family.
+    fn begin_family(&mut self, name: impl MetricNameEncoder) -> Result<(), std::io::Error> {
+        self.flush_buf()?;
+
+        let mut header = Vec::new();
+        encode_family_name(name, &mut header)?;
+        if self.state != State::Help || !self.buf[10..].starts_with(&header) {
+            self.buf.truncate(10);
+            self.buf.extend_from_slice(&header);
+        }
+        // there is nothing to write unless this family turns out to have samples
+        self.state = State::Init;
+        Ok(())
+    }
+
     fn flush_buf(&mut self) -> Result<(), std::io::Error> {
         if self.state == State::Metrics {
             self.state = State::Init;
@@ -93,11 +109,8 @@ impl<W: Write> Encoding for ProtoEncoder<W> {
         help: &str,
     ) -> Result<(), std::io::Error> {
         self.flush_buf()?;
-
-        // optional string     name   = 1;
-        encode_key(1, LengthDelimited, &mut self.buf);
-        encode_varint(name.encode_len() as u64, &mut self.buf);
-        name.encode_utf8(&mut self.buf)?;
+        self.buf.truncate(10);
+        encode_family_name(name, &mut self.buf)?;
 
         // optional string     help   = 2;
         encoding::string::encode(2, help, &mut self.buf);
@@ -108,6 +121,13 @@ impl<W: Write> Encoding for ProtoEncoder<W> {
     }
 }
 
+fn encode_family_name(name: impl MetricNameEncoder, buf: &mut Vec<u8>) -> std::io::Result<()> {
+    // optional string     name   = 1;
+    encode_key(1, LengthDelimited, buf);
+    encode_varint(name.encode_len() as u64, buf);
+    name.encode_utf8(buf)
+}
+
 struct LenVisitor {}
 impl LabelVisitor for LenVisitor {
     type Output = usize;
@@ -223,14 +243,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for CounterState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
+        enc.begin_family(name)?;
 
         // optional MetricType type   = 3;
         // COUNTER = 0;
@@ -278,14 +291,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for GaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
+        enc.begin_family(name)?;
 
         // optional MetricType type   = 3;
         // GAUGE = 1;
@@ -333,14 +339,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for FloatGaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
+        enc.begin_family(name)?;
 
         // optional MetricType type   = 3;
         // GAUGE = 1;
-- 
2.43.0


From e4875177e1db72eb4d8f902a28977163f788b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 09/15] fix: keep the hash of sparse label ids in the table

Growing a shard re-hashed the stored keys. A panic in the key's Hash in the
middle of an in-place rehash lost or duplicated unrelated series.
---
 core/src/metric.rs        |  2 +-
 core/src/metric/sparse.rs | 27 +++++++++++----------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/core/src/metric.rs b/core/src/metric.rs
index 9e2e723..faec906 100644
--- a/core/src/metric.rs
+++ b/core/src/metric.rs
@@ -461,7 +461,7 @@ impl<M: MetricEncoding<T>, L: LabelGroupSet, T: Encoding> MetricFamilyEncoding<T
             VecInner::Sparse(m) => {
                 for shard in m.shards.iter() {
                     for (k, v) in shard.read().iter() {
-                        v.collect_into(&self.metadata, self.label_set.decode(k), &name, enc)?;
+                        v.collect_into(&self.metadata, self.label_set.decode(&k.id), &name, enc)?;
                     }
                 }
             }
diff --git a/core/src/metric/sparse.rs b/core/src/metric/sparse.rs
index e1bc0a1..32fbf4f 100644
--- a/core/src/metric/sparse.rs
+++ b/core/src/metric/sparse.rs
@@ -2,10 +2,7 @@ use core::hash::Hash;
 use crossbeam_utils::CachePadded;
 use hashbrown::HashTable;
 use parking_lot::{MappedRwLockReadGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
-use std::{
-    hash::{BuildHasher, BuildHasherDefault},
-    sync::OnceLock,
-};
+use std::{hash::BuildHasherDefault, sync::OnceLock};
 
 use super::{LabelIdInner, MetricType};
 
@@ -17,8 +14,10 @@ pub(super) struct ShardedMap<K, V> {
     // hasher: BuildHasherDefault<twox_hash::Xxh3Hash64>,
     // hasher: BuildHasherDefault<ahash::AHasher>,
     // hasher: std::hash::RandomState,
+    // the hash is kept next to the key, so that growing a shard never runs the key's `Hash`,
+    // which could panic half way through
     #[allow(clippy::type_complexity)]
-    pub(super) shards: Box<[CachePadded<RwLock<HashTable<(K, V)>>>]>,
+    pub(super) shards: Box<[CachePadded<RwLock<HashTable<(LabelIdInner<K>, V)>>>]>,
     shift: u32,
 }
 
@@ -51,7 +50,7 @@ impl<M: MetricType, U: Hash + Eq + Copy> ShardedMap<U, M> {
 
         {
             let mapped = RwLockReadGuard::try_map(shard.read(), |shard| {
-                shard.find(id.hash, |(k, _v)| *k == id.id).map(|(_, v)| v)
+                shard.find(id.hash, |(k, _v)| k.id == id.id).map(|(_, v)| v)
             });
             if let Ok(mapped) = mapped {
                 return mapped;
@@ -60,20 +59,18 @@ impl<M: MetricType, U: Hash + Eq + Copy> ShardedMap<U, M> {
 
         let shard = {
             let mut shard = shard.write();
-            let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
+            let entry = shard.find_entry(id.hash, |(k, _)| k.id == id.id);
             match entry {
                 Ok(_) => {}
                 Err(_) => {
-                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
-                        self.hasher.hash_one(k)
-                    });
+                    shard.insert_unique(id.hash, (id, M::default()), |(k, _)| k.hash);
                 }
             }
             RwLockWriteGuard::downgrade(shard)
         };
 
         RwLockReadGuard::map(shard, |shard| {
-            let (_, v) = shard.find(id.hash, |(k, _v)| *k == id.id).expect(
+            let (_, v) = shard.find(id.hash, |(k, _v)| k.id == id.id).expect(
                 "the entry was just inserted into the map without allowing any writes inbetween",
             );
             v
@@ -84,7 +81,7 @@ impl<M: MetricType, U: Hash + Eq + Copy> ShardedMap<U, M> {
         let shard = &self.shards[((id.hash as usize) << 7) >> self.shift];
 
         let mut shard = shard.write();
-        let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
+        let entry = shard.find_entry(id.hash, |(k, _)| k.id == id.id);
         match entry {
             Ok(x) => Some(x.remove().0 .1),
             Err(_) => None,
@@ -94,14 +91,12 @@ impl<M: MetricType, U: Hash + Eq + Copy> ShardedMap<U, M> {
     pub(super) fn get_metric_mut(&mut self, id: LabelIdInner<U>) -> &mut M {
         let shard = &mut self.shards[((id.hash as usize) << 7) >> self.shift];
 
-        let entry = shard.get_mut().find_entry(id.hash, |(k, _)| *k == id.id);
+        let entry = shard.get_mut().find_entry(id.hash, |(k, _)| k.id == id.id);
         let (_, v) = match entry {
             Ok(o) => o.into_mut(),
             Err(v) => v
                 .into_table()
-                .insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
-                    self.hasher.hash_one(k)
-                })
+                .insert_unique(id.hash, (id, M::default()), |(k, _)| k.hash)
                 .into_mut(),
         };
 
-- 
2.43.0


From d5ab5c55af1190716e4175cead0a5c1469b83730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:42 +0000
Subject: [PATCH 10/15] fix: MetricName::try_from_str rejects '-' as from_str
 and the documentation do

---
 core/src/metric/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/metric/name.rs b/core/src/metric/name.rs
index 8a4aa4c..92d10c3 100644
--- a/core/src/metric/name.rs
+++ b/core/src/metric/name.rs
@@ -83,7 +83,7 @@ fn try_assert_metric_name(value: &str) -> Result<(), InvalidMetricName> {
     }
 
     value.bytes().try_fold((), |(), b| match b {
-        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'-' | b'_' | b':' => Ok(()),
+        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => Ok(()),
         _ => Err(InvalidMetricName::InvalidChars),
     })?;
 
-- 
2.43.0


From 17d3caeadd407c297e59ab74e8ec86da86bd6e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:05 +0000
Subject: [PATCH 11/15] fix: count the open descriptors of a process without
 directory entries and errors

---
 process/src/lib.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index f81fe58..5fa3a31 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -25,6 +25,8 @@
 //! # drop(metrics);
 //! ```
 
+#[cfg(target_os = "linux")]
+use std::os::fd::AsRawFd;
 use std::sync::OnceLock;
 
 use libc::pid_t;
@@ -86,7 +88,7 @@ where
             };
 
             // file descriptors
-            if let Ok(fd_count) = p.fd_count() {
+            if let Some(fd_count) = open_fds(&p) {
                 let fd = MetricName::from_str("open_fds");
                 enc.write_help(fd, "Number of open file descriptors.")?;
                 write_gauge(enc, fd, NoLabels, fd_count as i64)?;
@@ -139,6 +141,23 @@ where
     }
 }
 
+/// The number of open file descriptors.
+///
+/// [`Process::fd_count`](procfs::process::Process::fd_count) also counts `.`, `..` and read errors
+/// when it has to list the directory, which is the case before Linux 6.2.
+#[cfg(target_os = "linux")]
+fn open_fds(p: &procfs::process::Process) -> Option<u64> {
+    // stay within the opened process: its id might belong to another process by now.
+    let dir = p.open_relative(".").ok()?;
+    let fds = format!("/proc/self/fd/{}/fd", dir.as_raw_fd());
+    match std::fs::metadata(&fds).ok()?.len() {
+        0 => std::fs::read_dir(fds)
+            .ok()?
+            .try_fold(0, |n, fd| fd.ok().map(|_| n + 1)),
+        n => Some(n),
+    }
+}
+
 fn clk_tck() -> i64 {
     static CLK_TCK: OnceLock<i64> = OnceLock::new();
     *CLK_TCK.get_or_init(|| unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as i64)
-- 
2.43.0


From ef59f36e5e98f3ee551ddefee7cbe3581f54de6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:52 +0000
Subject: [PATCH 12/15] fix: exclusive updates of integer metrics wrap around
 like shared ones

---
 core/src/metric/counter.rs |  6 ++++--
 core/src/metric/gauge.rs   | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/src/metric/counter.rs b/core/src/metric/counter.rs
index 9271b2f..a1fdf83 100644
--- a/core/src/metric/counter.rs
+++ b/core/src/metric/counter.rs
@@ -43,12 +43,14 @@ impl CounterState {
 impl CounterMut<'_> {
     /// Increment the counter value by 1
     pub fn inc(mut self) {
-        *self.count.get_mut() += 1;
+        let count = self.count.get_mut();
+        *count = count.wrapping_add(1);
     }
 
     /// Increment the counter value by `x`
     pub fn inc_by(mut self, x: u64) {
-        *self.count.get_mut() += x;
+        let count = self.count.get_mut();
+        *count = count.wrapping_add(x);
     }
 }
 
diff --git a/core/src/metric/gauge.rs b/core/src/metric/gauge.rs
index 202b1cd..b46d260 100644
--- a/core/src/metric/gauge.rs
+++ b/core/src/metric/gauge.rs
@@ -90,22 +90,26 @@ impl GaugeLockGuard<'_> {
 impl GaugeMut<'_> {
     /// Increment the gauge value by 1
     pub fn inc(mut self) {
-        *self.count.get_mut() += 1;
+        let count = self.count.get_mut();
+        *count = count.wrapping_add(1);
     }
 
     /// Increment the gauge value by `x`
     pub fn inc_by(mut self, x: i64) {
-        *self.count.get_mut() += x;
+        let count = self.count.get_mut();
+        *count = count.wrapping_add(x);
     }
 
     /// Decrement the gauge value by 1
     pub fn dec(mut self) {
-        *self.count.get_mut() -= 1;
+        let count = self.count.get_mut();
+        *count = count.wrapping_sub(1);
     }
 
     /// Decrement the gauge value by `x`
     pub fn dec_by(mut self, x: i64) {
-        *self.count.get_mut() -= x;
+        let count = self.count.get_mut();
+        *count = count.wrapping_sub(x);
     }
 
     /// Set the gauge value to `x`
-- 
2.43.0


From 77981c76a001ed8b387c086ee303b89891f285d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:49 +0000
Subject: [PATCH 13/15] fix: refuse label groups whose encoding does not fit
 instead of aliasing them

---
 derive/src/label_group/to_tokens.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 827ef0d..d9d3cf8 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -278,12 +278,16 @@ impl ToTokens for SetEncode<'_> {
 
         tokens.extend(quote! {
             fn encode(&self, value: Self::Group<'_>) -> Option<Self::Unique> {
-                let mut mul = 1;
-                let mut index = 0;
+                // the place value of the next field, unless it is too large
+                let mut mul = Some(1usize);
+                let mut index = 0usize;
 
                 #(
-                    index += #fixed_encodes * mul;
-                    mul *= #cardinalities;
+                    let digit: usize = #fixed_encodes;
+                    if digit != 0 {
+                        index = index.checked_add(digit.checked_mul(mul?)?)?;
+                    }
+                    mul = mul.and_then(|mul| mul.checked_mul(#cardinalities));
                 )*
 
                 Some((
-- 
2.43.0


From 95661c1bf0e8ab03bc6da24d85c893abf2e6e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:21 +0000
Subject: [PATCH 14/15] fix: report each histogram bound once when bounds
 coincide

---
 core/src/text.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/text.rs b/core/src/text.rs
index d5a9f9b..6edb72d 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -254,6 +254,10 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
         for i in 0..N {
             let le = metadata.get()[i];
             val += buckets[i];
+            // bounds can coincide, with each other or with the +Inf below: report each of them once
+            if le == metadata.get().get(i + 1).copied().unwrap_or(f64::INFINITY) {
+                continue;
+            }
             enc.write_metric_value(
                 name.by_ref().with_suffix(Bucket),
                 labels.by_ref().compose_with(HistogramLabelLe { le }),
-- 
2.43.0


From debb809504e9d679892c4a9b279aabb2bfb23d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:21 +0000
Subject: [PATCH 15/15] fix: never write a protobuf family with a partial
 sample after a panic in a label

---
 prometheus-proto/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index 8f85c77..7af5c05 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -259,7 +259,8 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for CounterState {
         _name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.state = State::Metrics;
+        // labels can panic: a family is not to be written with a part of a sample
+        enc.state = State::Init;
 
         let mut metric_len = 0;
 
@@ -282,6 +283,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for CounterState {
             });
         });
 
+        enc.state = State::Metrics;
         Ok(())
     }
 }
@@ -307,7 +309,8 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for GaugeState {
         _name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.state = State::Metrics;
+        // labels can panic: a family is not to be written with a part of a sample
+        enc.state = State::Init;
 
         let mut metric_len = 0;
 
@@ -330,6 +333,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for GaugeState {
             });
         });
 
+        enc.state = State::Metrics;
         Ok(())
     }
 }
@@ -355,7 +359,8 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for FloatGaugeState {
         _name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.state = State::Metrics;
+        // labels can panic: a family is not to be written with a part of a sample
+        enc.state = State::Init;
 
         let mut metric_len = 0;
 
@@ -378,6 +383,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for FloatGaugeState {
             });
         });
 
+        enc.state = State::Metrics;
         Ok(())
     }
 }
-- 
2.43.0

