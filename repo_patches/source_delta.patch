From 794a0a310e2d75e215723e8ae70440c7983a2a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 01/15] fix: keep counters from wrapping around or saturating
 when the integer total would pass 2^64

---
 src/atomic.rs          | 12 ++++++++++++
 src/metrics/counter.rs | 14 ++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/atomic.rs b/src/atomic.rs
index d6a08f3..f7b58d3 100644
--- a/src/atomic.rs
+++ b/src/atomic.rs
@@ -23,6 +23,18 @@ impl AtomicU64 {
         self.0.fetch_add(v, Relaxed);
     }
 
+    /// Adds `v` unless the result would overflow, in which case `false` is returned.
+    pub fn checked_add(&self, v: u64) -> bool {
+        let mut old = self.0.load(Relaxed);
+        while let Some(new) = old.checked_add(v) {
+            match self.0.compare_exchange_weak(old, new, Relaxed, Relaxed) {
+                Ok(_) => return true,
+                Err(v) => old = v, // try again
+            }
+        }
+        false
+    }
+
     pub fn update<F>(&self, f: F)
     where
         F: Fn(u64) -> u64,
diff --git a/src/metrics/counter.rs b/src/metrics/counter.rs
index efaa2a4..6f89ba6 100644
--- a/src/metrics/counter.rs
+++ b/src/metrics/counter.rs
@@ -238,6 +238,9 @@ struct Inner {
     value: Value,
 }
 
+/// The number of the values which can be represented by `u64` (i.e., 2^64).
+const U64_RANGE: f64 = 18_446_744_073_709_551_616.0;
+
 #[derive(Debug)]
 struct Value {
     f64: AtomicF64,
@@ -258,15 +261,15 @@ impl Value {
 
     #[inline]
     fn increment(&self) {
-        self.u64.inc();
+        self.add_u64(1);
     }
 
     #[inline]
     fn add(&self, count: f64) {
         let floor = count.floor() as u64;
         let ceil = count.ceil() as u64;
-        if floor == ceil {
-            self.u64.add(floor);
+        if floor == ceil && count < U64_RANGE {
+            self.add_u64(floor);
         } else {
             self.f64.add(count);
         }
@@ -274,7 +277,10 @@ impl Value {
 
     #[inline]
     fn add_u64(&self, count: u64) {
-        self.u64.add(count);
+        if !self.u64.checked_add(count) {
+            // The integer part is full: wrapping around would decrease the counter
+            self.f64.add(count as f64);
+        }
     }
 }
 
-- 
2.43.0


From 3a99f095deca97a46bcc6c3af1d87dc8a78353c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 02/15] fix: take back the in-progress increment when the
 tracked code panics

---
 src/metrics/gauge.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/metrics/gauge.rs b/src/metrics/gauge.rs
index 291f5cf..e1a96ef 100644
--- a/src/metrics/gauge.rs
+++ b/src/metrics/gauge.rs
@@ -116,10 +116,16 @@ impl Gauge {
     where
         F: FnOnce() -> T,
     {
+        // decrements also when `f` panics
+        struct Decrement<'a>(&'a Gauge);
+        impl<'a> Drop for Decrement<'a> {
+            fn drop(&mut self) {
+                self.0.decrement();
+            }
+        }
         self.increment();
-        let result = f();
-        self.decrement();
-        result
+        let _guard = Decrement(self);
+        f()
     }
 
     /// Measures the exeuction time of `f` and sets this gauge to its duration in seconds.
-- 
2.43.0


From 89b1556e998973aebda0a748a3f02f9c8803fc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 03/15] fix: make a histogram have one bucket per distinct
 bound

A bound requested twice (or an explicit +Inf) gave two buckets with the same
`le`, of which only one was counted by the binary search.
---
 src/metrics/histogram.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 92e6732..83d3aa2 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -282,6 +282,7 @@ impl HistogramBuilder {
                 .partial_cmp(&b.upper_bound())
                 .expect("Never fails")
         });
+        buckets.dedup_by(|a, b| a.upper_bound() == b.upper_bound());
         let inner = Inner {
             bucket_name,
             labels: Labels::new(labels),
-- 
2.43.0


From 62a9778a21cfa648207e13dff3314495c3ddaea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 04/15] fix: make exponential buckets start * factor^i

The start was added to the power instead of multiplied with it.
---
 src/metrics/histogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 83d3aa2..5378bd7 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -192,7 +192,7 @@ impl HistogramBuilder {
     /// Makes a builder with the specified exponential buckets.
     pub fn with_exponential_buckets(name: &str, start: f64, factor: f64, count: usize) -> Self {
         let mut this = Self::new(name);
-        for x in (0..count).map(|i| start + factor.powi(i as i32)) {
+        for x in (0..count).map(|i| start * factor.powi(i as i32)) {
             this.bucket(x);
         }
         this
-- 
2.43.0


From 0ab70786afeea4c37ee9fef998e97b50ba741301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 05/15] fix: merge histogram buckets by exact bound

Bounds closer than EPSILON to the smallest one were swallowed (or, with a
-Inf bound, all of them), so that merged counts included larger bounds.
---
 src/bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bucket.rs b/src/bucket.rs
index e55fa0d..6508594 100644
--- a/src/bucket.rs
+++ b/src/bucket.rs
@@ -133,7 +133,7 @@ impl<'a> Iterator for AggregatedCumulativeBuckets<'a> {
 
         for buckets in &mut self.iters {
             let upper_bound = buckets.peek().expect("Never fails").upper_bound();
-            if min.is_infinite() || (upper_bound - min).abs() < std::f64::EPSILON {
+            if upper_bound == min {
                 let bucket = buckets.next().expect("Never fails");
                 self.cumulative_count += bucket.count();
             }
-- 
2.43.0


From 6381bde4b20d2907130e669fab3787977785efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 06/15] fix: report the largest sample for quantile 1.0 instead
 of panicking

---
 src/aggregated_metrics.rs | 5 ++++-
 src/metrics/summary.rs    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 2950497..ea19edb 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -303,7 +303,10 @@ impl AggregatedSummary {
         quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(
+                    count - 1,
+                    (quantile.as_f64() * count as f64).floor() as usize,
+                );
                 (quantile, aggregated_samples[index])
             })
             .collect()
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 942142e..fe79687 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -90,7 +90,10 @@ impl Summary {
             .quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(
+                    count - 1,
+                    (quantile.as_f64() * count as f64).floor() as usize,
+                );
                 (quantile, samples[index])
             })
             .collect()
-- 
2.43.0


From 93853504b5079d394d72faeebdcdedf89e51d4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 07/15] fix: report each distinct quantile of a summary once

---
 src/metrics/summary.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index fe79687..3b52cba 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -296,6 +296,7 @@ impl SummaryBuilder {
             .map(|quantile| track!(Quantile::new(*quantile)))
             .collect::<Result<Vec<_>>>())?;
         quantiles.sort_by(|a, b| a.as_f64().partial_cmp(&b.as_f64()).expect("Never fails"));
+        quantiles.dedup();
         let inner = Inner {
             quantile_name,
             labels: Labels::new(labels),
-- 
2.43.0


From 1d7e1512e8d86ac4f16f5ebcded390cbaea2efb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 08/15] fix: identify metric names by the full name

---
 src/metric.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index de10628..e90d53f 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -1,6 +1,9 @@
 //! Metric.
 use std;
+use std::cmp;
 use std::fmt;
+use std::hash::{Hash, Hasher};
+use std::iter;
 
 pub use aggregated_metrics::{
     AggregatedCounter, AggregatedGauge, AggregatedHistogram, AggregatedSummary,
@@ -84,7 +87,9 @@ impl From<Summary> for Metric {
 ///
 /// - [Metric name and labels](https://prometheus.io/docs/concepts/data_model/#metric-names-and-labels)
 /// - [Metric names](https://prometheus.io/docs/instrumenting/writing_clientlibs/#metric-names)
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+///
+/// Names are compared (and hashed) by what they denote, the full name, however it is split into parts.
+#[derive(Debug, Clone)]
 pub struct MetricName {
     namespace: Option<String>,
     subsystem: Option<String>,
@@ -125,6 +130,13 @@ impl MetricName {
             name: name.to_string(),
         })
     }
+    fn full_name_bytes<'a>(&'a self) -> impl Iterator<Item = u8> + 'a {
+        self.namespace
+            .iter()
+            .chain(self.subsystem.iter())
+            .flat_map(|s| s.bytes().chain(iter::once(b'_')))
+            .chain(self.name.bytes())
+    }
     fn validate_name(name: &str) -> Result<()> {
         // REGEX: [a-zA-Z_:][a-zA-Z0-9_:]*
         track_assert!(!name.is_empty(), ErrorKind::InvalidInput);
@@ -141,6 +153,27 @@ impl MetricName {
         Ok(())
     }
 }
+impl PartialEq for MetricName {
+    fn eq(&self, other: &Self) -> bool {
+        self.full_name_bytes().eq(other.full_name_bytes())
+    }
+}
+impl Eq for MetricName {}
+impl PartialOrd for MetricName {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+impl Ord for MetricName {
+    fn cmp(&self, other: &Self) -> cmp::Ordering {
+        self.full_name_bytes().cmp(other.full_name_bytes())
+    }
+}
+impl Hash for MetricName {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.to_string().hash(state);
+    }
+}
 impl fmt::Display for MetricName {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         if let Some(ref s) = self.namespace {
-- 
2.43.0


From d45b90f57fa5b115635bc4d56bb5dc4752e827ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 09/15] fix: escape a line feed in label values and help texts
 as a backslash and an n

---
 src/label.rs  | 2 +-
 src/metric.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/label.rs b/src/label.rs
index 845f20f..2b9d668 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -100,7 +100,7 @@ impl fmt::Display for Label {
         for c in self.value.chars() {
             match c {
                 '\\' => write!(f, "\\\\")?,
-                '\n' => write!(f, "\\\\n")?,
+                '\n' => write!(f, "\\n")?,
                 '"' => write!(f, "\\\"")?,
                 _ => write!(f, "{}", c)?,
             }
diff --git a/src/metric.rs b/src/metric.rs
index e90d53f..913ae8a 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -365,7 +365,7 @@ impl fmt::Display for MetricFamily {
             for c in help.chars() {
                 match c {
                     '\\' => write!(f, "\\\\")?,
-                    '\n' => write!(f, "\\\\n")?,
+                    '\n' => write!(f, "\\n")?,
                     _ => write!(f, "{}", c)?,
                 }
             }
-- 
2.43.0


From 75ac06635708ec4f2aba0fe6ec46a8d9407e99ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 10/15] fix: escape label values of bucket and quantile lines
 by the rules of the text format

---
 src/aggregated_metrics.rs | 4 ++--
 src/metrics/histogram.rs  | 2 +-
 src/metrics/summary.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index ea19edb..7413a24 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -216,7 +216,7 @@ impl fmt::Display for AggregatedHistogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
@@ -350,7 +350,7 @@ impl fmt::Display for AggregatedSummary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 5378bd7..bedf294 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -131,7 +131,7 @@ impl fmt::Display for Histogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 3b52cba..3536b49 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -172,7 +172,7 @@ impl fmt::Display for Summary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
-- 
2.43.0


From 7a926f14aa20139a237fc8c383d920da4f9f0c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 11/15] fix: render NaN as the text format spells it

---
 src/metric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index 913ae8a..1fd9bba 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -213,7 +213,7 @@ impl fmt::Display for MetricValue {
         if self.0.is_finite() {
             write!(f, "{}", self.0)
         } else if self.0.is_nan() {
-            write!(f, "Nan")
+            write!(f, "NaN")
         } else if self.0.is_sign_positive() {
             write!(f, "+Inf")
         } else {
-- 
2.43.0


From c8d8a00712a5abcae2fbab27673d1a4ba97ce80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 12/15] fix: report the start time even when the stat file
 cannot be read

---
 src/metrics/process.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metrics/process.rs b/src/metrics/process.rs
index 9ae6d87..d2cf2a9 100644
--- a/src/metrics/process.rs
+++ b/src/metrics/process.rs
@@ -71,14 +71,14 @@ impl Collect for ProcessMetricsCollector {
         if let Ok(status) = procinfo::pid::status_self() {
             metrics.push(gauge("open_fds", f64::from(status.fd_allocated)));
         }
+        if let Ok(start_time) = self.start_time.duration_since(UNIX_EPOCH) {
+            metrics.push(gauge("start_time_seconds", start_time.as_secs() as f64));
+        }
         if let Ok(stat) = procinfo::pid::stat_self() {
             metrics.push(counter(
                 "cpu_seconds_total",
                 (stat.utime + stat.stime) as f64 / *CLK_TCK,
             ));
-            if let Ok(start_time) = self.start_time.duration_since(UNIX_EPOCH) {
-                metrics.push(gauge("start_time_seconds", start_time.as_secs() as f64));
-            }
             metrics.push(gauge("threads_total", f64::from(stat.num_threads)));
             metrics.push(gauge("virtual_memory_bytes", stat.vsize as f64));
             metrics.push(gauge(
-- 
2.43.0


From dfdaa549035dffa76e33c12e2e32d207f87a05a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:52 +0000
Subject: [PATCH 13/15] fix: do not lose a label change when several threads
 change the labels of one metric

---
 src/label.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/label.rs b/src/label.rs
index 2b9d668..eed018d 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -8,6 +8,7 @@ use atomic_immut::AtomicImmut;
 use std;
 use std::fmt;
 use std::ops::Deref;
+use std::sync::{Mutex, MutexGuard};
 
 use {ErrorKind, Result};
 
@@ -111,7 +112,7 @@ impl fmt::Display for Label {
 
 /// A map of labels (i.e., key-value pairs).
 #[derive(Debug)]
-pub struct Labels(AtomicImmut<Vec<Label>>);
+pub struct Labels(AtomicImmut<Vec<Label>>, Mutex<()>);
 impl Labels {
     /// Returns the number of labels contained in this map.
     pub fn len(&self) -> usize {
@@ -136,7 +137,13 @@ impl Labels {
     }
 
     pub(crate) fn new(labels: Vec<Label>) -> Self {
-        Labels(AtomicImmut::new(labels))
+        Labels(AtomicImmut::new(labels), Mutex::new(()))
+    }
+
+    // `AtomicImmut::update` can lose a concurrent update if the allocator reuses the address of
+    // the old value, so only one thread may change the labels at a time.
+    fn write_lock(&self) -> MutexGuard<()> {
+        self.1.lock().unwrap_or_else(|e| e.into_inner())
     }
 }
 impl fmt::Display for Labels {
@@ -168,6 +175,7 @@ impl<'a> LabelsMut<'a> {
             ErrorKind::InvalidInput
         );
         let label = track!(Label::new(name, value))?;
+        let _guard = self.inner.write_lock();
         self.inner.0.update(move |labels| {
             let mut labels = labels.clone();
             labels.retain(|l| l.name != label.name);
@@ -180,6 +188,7 @@ impl<'a> LabelsMut<'a> {
 
     /// Removes the label which has the name `name` if it exists.
     pub fn remove(&mut self, name: &str) {
+        let _guard = self.inner.write_lock();
         self.inner
             .0
             .update(|labels| labels.iter().filter(|l| l.name != name).cloned().collect());
@@ -187,6 +196,7 @@ impl<'a> LabelsMut<'a> {
 
     /// Clears the all labels.
     pub fn clear(&mut self) {
+        let _guard = self.inner.write_lock();
         self.inner.0.store(Vec::new());
     }
 
-- 
2.43.0


From ba6d7dda0323f74cc80b94c54c5ff97def7cac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 14/15] fix: keep the default registry working after a
 collector has panicked

A panic while the default gatherer is gathering poisons its mutex, after which
metrics registered with the default registry were silently lost.
---
 src/registry.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index 73b62eb..c7b5f70 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -1,7 +1,7 @@
 use std::cmp;
 use std::fmt;
 use std::sync::mpsc;
-use std::sync::Mutex;
+use std::sync::{Mutex, PoisonError};
 
 use metric::{Metric, MetricFamilies, MetricFamily};
 use Collect;
@@ -17,12 +17,11 @@ pub fn default_gatherer() -> &'static Mutex<Gatherer> {
 
 /// Returns the global default `Registry`.
 pub fn default_registry() -> Registry {
-    if let Ok(gatherer) = default_gatherer().lock() {
-        gatherer.registry()
-    } else {
-        let (tx, _) = mpsc::channel();
-        Registry { tx }
-    }
+    // A gatherer is still usable after one of its collectors has panicked
+    default_gatherer()
+        .lock()
+        .unwrap_or_else(PoisonError::into_inner)
+        .registry()
 }
 
 /// Collector registry.
-- 
2.43.0


From d9664353d72800506a8fbf14864fe1677ece6959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:14 +0000
Subject: [PATCH 15/15] fix: do not panic when labels change while a gathering
 sorts its metrics

Comparing the current labels is no total order if another thread changes them
in the meantime, and sorting may panic then.
---
 src/registry.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index c7b5f70..f6e969e 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -1,8 +1,8 @@
-use std::cmp;
 use std::fmt;
 use std::sync::mpsc;
 use std::sync::{Mutex, PoisonError};
 
+use label::Label;
 use metric::{Metric, MetricFamilies, MetricFamily};
 use Collect;
 
@@ -103,13 +103,11 @@ impl Gatherer {
                 self.collectors.swap_remove(i);
             }
         }
-        metrics.sort_by(|a, b| {
-            let result = (a.name(), a.kind()).cmp(&(b.name(), b.kind()));
-            if result == cmp::Ordering::Equal {
-                a.labels().iter().cmp(b.labels().iter())
-            } else {
-                result
-            }
+        // The labels may be changed by other threads in the meantime, so that comparing them directly
+        // would not be a total order (in which case sorting may panic).
+        metrics.sort_by_cached_key(|m| {
+            let labels: Vec<Label> = m.labels().iter().cloned().collect();
+            (m.name().clone(), m.kind(), labels)
         });
 
         let mut families: Vec<MetricFamily> = Vec::new();
-- 
2.43.0

