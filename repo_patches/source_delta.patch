From 3cd17fef56e23de126a41e6a45e4cf555112a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:04 +0000
Subject: [PATCH 01/54] fix: UTC calendar conversion of instants before 1970

---
 crates/aether_time/src/time/schedule.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index b542448..0273cc9 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -244,13 +244,14 @@ impl UtcSchedule {
 impl Time<UTC> {
     pub fn to_utc_datetime(self) -> UtcDateTime {
         // Integer division / modulo: sec + nanos -> Y-M-D h:m:s.nnnnnnnnn
+        // (Euclidean, so instants before 1970 count up from the previous midnight.)
         let mut secs = self.sec;
-        let second = (secs % 60) as u8;
-        secs /= 60;
-        let minute = (secs % 60) as u8;
-        secs /= 60;
-        let hour = (secs % 24) as u8;
-        let days = secs / 24;
+        let second = secs.rem_euclid(60) as u8;
+        secs = secs.div_euclid(60);
+        let minute = secs.rem_euclid(60) as u8;
+        secs = secs.div_euclid(60);
+        let hour = secs.rem_euclid(24) as u8;
+        let days = secs.div_euclid(24);
 
         let mut dt = days_to_ymd(days, hour, minute, second);
         dt.nanos = self.nano_sec; // preserve nanos
-- 
2.43.0


From d70850e10a6fc708cd9b47da72e2f953d1ca48b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:05 +0000
Subject: [PATCH 02/54] fix: UTC seconds of calendar dates before year 0

---
 crates/aether_time/src/time/schedule.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 0273cc9..8bfebfb 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -272,7 +272,7 @@ impl Time<UTC> {
         };
 
         // Days since civil epoch 0000-03-01
-        let era = y / 400;
+        let era = y.div_euclid(400);
         let yoe = y - era * 400;                         // [0, 399]
         let doy = (153 * (m - 3) + 2) / 5 + day - 1;     // [0, 365]
         let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; // [0, 146096]
-- 
2.43.0


From a21b5cbe5bbd1f9fa7cc766bdf72cdfb4126fa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:05 +0000
Subject: [PATCH 03/54] fix: hourly and daily schedules skip a period before
 1970

---
 crates/aether_time/src/time/schedule.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 8bfebfb..ef20477 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -117,7 +117,7 @@ fn next_interval(after: Time<UTC>, period: Duration) -> Time<UTC> {
 
 fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let hour_start = (now_sec / SECS_PER_HOUR) * SECS_PER_HOUR;
+    let hour_start = now_sec.div_euclid(SECS_PER_HOUR) * SECS_PER_HOUR;
     let target_in_hour =
         hour_start + (minute as i64) * SECS_PER_MIN + (second as i64);
 
@@ -130,7 +130,7 @@ fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
 
 fn next_daily(after: Time<UTC>, hour: u8, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let day_start = (now_sec / SECS_PER_DAY) * SECS_PER_DAY;
+    let day_start = now_sec.div_euclid(SECS_PER_DAY) * SECS_PER_DAY;
     let target_today =
         day_start + (hour as i64) * SECS_PER_HOUR
                   + (minute as i64) * SECS_PER_MIN
-- 
2.43.0


From 8512d5af8d7d9fc55a3c1e4775bbe8f083d6422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:05 +0000
Subject: [PATCH 04/54] fix: a Once schedule fired again on every later check

---
 crates/aether_time/src/time/schedule.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index ef20477..7e948d2 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -212,9 +212,8 @@ impl UtcSchedule {
         // It fires now
         match self.pattern {
             Recurrence::Once => {
-                // For Once, you might choose to never fire again;
-                // leave next_fire as-is or set to max.
-                self.pattern = Recurrence::Once;
+                // Once means once: no later check can reach this instant.
+                self.next_fire = Time::<UTC>::new(i64::MAX, 999_999_999);
             }
             Recurrence::Interval(period) => {
                 // Catch up if we missed multiple ticks.
-- 
2.43.0


From bc44300f24ea29780b5ad11f0d9c10b87fb11b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:05 +0000
Subject: [PATCH 05/54] fix: negative durations were left with out-of-range
 nanoseconds

---
 crates/aether_time/src/time/duration.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/crates/aether_time/src/time/duration.rs b/crates/aether_time/src/time/duration.rs
index 9cb4153..1209d99 100644
--- a/crates/aether_time/src/time/duration.rs
+++ b/crates/aether_time/src/time/duration.rs
@@ -15,19 +15,14 @@ pub struct Duration {
 
 impl Duration {
     pub const fn from_nanos(total: i64) -> Self {
-        let sec = total / 1_000_000_000;
-        let nano_sec = (total % 1_000_000_000) as i32;
+        let sec = total.div_euclid(1_000_000_000);
+        let nano_sec = total.rem_euclid(1_000_000_000) as i32;
         Self { sec, nano_sec }
     }
 
     pub fn normalize(mut self) -> Self {
-        if self.nano_sec >= 1_000_000_000 {
-            self.sec += (self.nano_sec / 1_000_000_000) as i64;
-            self.nano_sec %= 1_000_000_000;
-        } else if self.nano_sec < 0 {
-            self.sec -= 1;
-            self.nano_sec += 1_000_000_000;
-        }
+        self.sec += self.nano_sec.div_euclid(1_000_000_000) as i64;
+        self.nano_sec = self.nano_sec.rem_euclid(1_000_000_000);
         self
     }
 
-- 
2.43.0


From 214f2435cc7a55c6c6ab8306b34d99e58ca2fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:05 +0000
Subject: [PATCH 06/54] fix: GPS week and second-of-week of instants before the
 GPS epoch

---
 crates/aether_time/src/time/gps.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/gps.rs b/crates/aether_time/src/time/gps.rs
index 8c6a515..e3a8d4c 100644
--- a/crates/aether_time/src/time/gps.rs
+++ b/crates/aether_time/src/time/gps.rs
@@ -15,8 +15,10 @@ pub struct GpsWeekTime {
 impl Time<GPS> {
     pub fn to_gps_week(self, current_full_week_hint: u32) -> GpsWeekTime {
         let total = self.sec;
-        let raw_week = ((total / GPS_WEEK_SECONDS) % GPS_WEEK_MODULUS as i64) as u16;
-        let sow = total % GPS_WEEK_SECONDS;
+        let raw_week = total
+            .div_euclid(GPS_WEEK_SECONDS)
+            .rem_euclid(GPS_WEEK_MODULUS as i64) as u16;
+        let sow = total.rem_euclid(GPS_WEEK_SECONDS);
 
         // Compute the nearest rollover-corrected week
         let raw = raw_week as i64;
-- 
2.43.0


From 9fbf5c27c4d6ee5939f825a596b6fc3ff3d614dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:05 +0000
Subject: [PATCH 07/54] fix: GPS rollover correction could resolve to a
 negative week

---
 crates/aether_time/src/time/gps.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/aether_time/src/time/gps.rs b/crates/aether_time/src/time/gps.rs
index e3a8d4c..2ccd688 100644
--- a/crates/aether_time/src/time/gps.rs
+++ b/crates/aether_time/src/time/gps.rs
@@ -29,7 +29,8 @@ impl Time<GPS> {
         let mut full = base + raw;
         if (full - hint).abs() > (full + GPS_WEEK_MODULUS as i64 - hint).abs() {
             full += GPS_WEEK_MODULUS as i64;
-        } else if (full - GPS_WEEK_MODULUS as i64 - hint).abs() < (full - hint).abs() {
+        } else if full >= GPS_WEEK_MODULUS as i64
+            && (full - GPS_WEEK_MODULUS as i64 - hint).abs() < (full - hint).abs() {
             full -= GPS_WEEK_MODULUS as i64;
         }
 
-- 
2.43.0


From 9a4a848dfd135f1b286be1a76dad6cd954880147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:05 +0000
Subject: [PATCH 08/54] fix: TAI/GPS conversion read the leap second count
 twice

---
 crates/aether_time/src/time/time.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/time.rs b/crates/aether_time/src/time/time.rs
index b511ae3..7048a77 100644
--- a/crates/aether_time/src/time/time.rs
+++ b/crates/aether_time/src/time/time.rs
@@ -52,6 +52,9 @@ pub fn set_leap_seconds(leaps: i32) {
 /// Unix seconds at GPS epoch (1980-01-06 00:00:00 UTC)
 pub const UNIX_GPS_EPOCH: i64 = 315_964_800;
 
+/// TAI - GPS time, constant since the GPS epoch
+pub const TAI_MINUS_GPS: i64 = 19;
+
 // -------------------------
 // Core Types
 // -------------------------
@@ -150,15 +153,17 @@ impl Time<GPS> {
 // GPS <-> TAI
 // -------------------------
 
+// TAI - GPS is a fixed 19 s: the leap second count must not enter here, or an
+// update between two reads of it would shift the result.
 impl Time<GPS> {
     pub fn to_tai(self) -> Time<TAI> {
-        self.to_utc().to_tai()
+        Time::<TAI>::new(self.sec + UNIX_GPS_EPOCH + TAI_MINUS_GPS, self.nano_sec)
     }
 }
 
 impl Time<TAI> {
     pub fn to_gps(self) -> Time<GPS> {
-        self.to_utc().to_gps()
+        Time::<GPS>::new(self.sec - UNIX_GPS_EPOCH - TAI_MINUS_GPS, self.nano_sec)
     }
 }
 
-- 
2.43.0


From 306102564c7959718271d05f08e7059644dfce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:05 +0000
Subject: [PATCH 09/54] hook: report leap second accesses to an explorer under
 cfg(aether_mc)

---
 crates/aether_time/src/lib.rs       |  3 ++
 crates/aether_time/src/mc.rs        | 48 +++++++++++++++++++++++++++++
 crates/aether_time/src/time/time.rs |  6 +++-
 3 files changed, 56 insertions(+), 1 deletion(-)
 create mode 100644 crates/aether_time/src/mc.rs

diff --git a/crates/aether_time/src/lib.rs b/crates/aether_time/src/lib.rs
index 3d089aa..0946fac 100644
--- a/crates/aether_time/src/lib.rs
+++ b/crates/aether_time/src/lib.rs
@@ -1,2 +1,5 @@
 #![no_std]
 pub mod time;
+
+#[cfg(aether_mc)]
+pub mod mc;
diff --git a/crates/aether_time/src/mc.rs b/crates/aether_time/src/mc.rs
new file mode 100644
index 0000000..a0b3064
--- /dev/null
+++ b/crates/aether_time/src/mc.rs
@@ -0,0 +1,48 @@
+//! Model-checking hook (`--cfg aether_mc` only): an atomic that reports every
+//! access to an explorer before performing it, so the explorer can run another
+//! party's step at exactly that point.
+use core::sync::atomic::{AtomicI32 as Inner, AtomicUsize, Ordering};
+
+static HOOK: AtomicUsize = AtomicUsize::new(0);
+
+/// Install the function called before every access (`None` removes it).
+pub fn set_hook(f: Option<fn()>) {
+    HOOK.store(f.map_or(0, |f| f as usize), Ordering::SeqCst);
+}
+
+fn point() {
+    let p = HOOK.load(Ordering::SeqCst);
+    if p != 0 {
+        // SAFETY: only ever holds 0 or a `fn()` stored by `set_hook`.
+        let f: fn() = unsafe { core::mem::transmute(p) };
+        f();
+    }
+}
+
+pub struct AtomicI32(Inner);
+
+impl AtomicI32 {
+    pub const fn new(v: i32) -> Self {
+        Self(Inner::new(v))
+    }
+    pub fn load(&self, o: Ordering) -> i32 {
+        point();
+        self.0.load(o)
+    }
+    pub fn store(&self, v: i32, o: Ordering) {
+        point();
+        self.0.store(v, o)
+    }
+    pub fn swap(&self, v: i32, o: Ordering) -> i32 {
+        point();
+        self.0.swap(v, o)
+    }
+    pub fn fetch_add(&self, v: i32, o: Ordering) -> i32 {
+        point();
+        self.0.fetch_add(v, o)
+    }
+    pub fn compare_exchange(&self, a: i32, b: i32, s: Ordering, f: Ordering) -> Result<i32, i32> {
+        point();
+        self.0.compare_exchange(a, b, s, f)
+    }
+}
diff --git a/crates/aether_time/src/time/time.rs b/crates/aether_time/src/time/time.rs
index 7048a77..916c38a 100644
--- a/crates/aether_time/src/time/time.rs
+++ b/crates/aether_time/src/time/time.rs
@@ -2,7 +2,11 @@
 
 use core::marker::PhantomData;
 use core::ops::{Add, Sub};
-use core::sync::atomic::{AtomicI32, Ordering as AtomicOrdering};
+#[cfg(not(aether_mc))]
+use core::sync::atomic::AtomicI32;
+#[cfg(aether_mc)]
+use crate::mc::AtomicI32;
+use core::sync::atomic::Ordering as AtomicOrdering;
 use core::cmp::Ordering;
 
 
-- 
2.43.0


From 8a628a98cb90699df371e9f7127fb90bc7d81b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:43 +0000
Subject: [PATCH 10/54] fix: serde errors leaked the elements decoded before
 them

---
 crates/aether_core/src/math/matrix.rs | 47 +++++++++++++--------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/crates/aether_core/src/math/matrix.rs b/crates/aether_core/src/math/matrix.rs
index aa7be51..e243b7d 100644
--- a/crates/aether_core/src/math/matrix.rs
+++ b/crates/aether_core/src/math/matrix.rs
@@ -1269,6 +1269,23 @@ use core::marker::PhantomData;
 #[cfg(feature = "serde")]
 use serde::ser::SerializeSeq;
 
+/// Drops the first `len` elements behind `ptr` unless forgotten, so that every
+/// early return of a partially decoded value (a decoder error included) frees it.
+#[cfg(feature = "serde")]
+struct InitGuard<T> {
+    ptr: *mut T,
+    len: usize,
+}
+
+#[cfg(feature = "serde")]
+impl<T> Drop for InitGuard<T> {
+    fn drop(&mut self) {
+        for i in 0..self.len {
+            unsafe { ptr::drop_in_place(self.ptr.add(i)) };
+        }
+    }
+}
+
 #[cfg(feature = "serde")]
 impl<T, const M: usize, const N: usize> serde::Serialize for Matrix<T, M, N>
 where
@@ -1343,34 +1360,25 @@ where
                     {
                         let mut row = MaybeUninit::<[T; N]>::uninit();
                         let row_ptr = row.as_mut_ptr() as *mut T;
-                        let mut inited = 0usize;
+                        let mut inited = InitGuard { ptr: row_ptr, len: 0 };
 
                         for i in 0..N {
                             match seq.next_element()? {
                                 Some(v) => {
                                     unsafe { row_ptr.add(i).write(v) };
-                                    inited += 1;
+                                    inited.len += 1;
                                 }
                                 None => {
-                                    unsafe {
-                                        for j in 0..inited {
-                                            ptr::drop_in_place(row_ptr.add(j));
-                                        }
-                                    }
                                     return Err(serde::de::Error::invalid_length(i, &self));
                                 }
                             }
                         }
 
                         if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
-                            unsafe {
-                                for j in 0..inited {
-                                    ptr::drop_in_place(row_ptr.add(j));
-                                }
-                            }
                             return Err(serde::de::Error::invalid_length(N + 1, &self));
                         }
 
+                        core::mem::forget(inited);
                         Ok(unsafe { row.assume_init() })
                     }
                 }
@@ -1398,34 +1406,25 @@ where
             {
                 let mut out = MaybeUninit::<[[T; N]; M]>::uninit();
                 let out_ptr = out.as_mut_ptr() as *mut [T; N];
-                let mut inited = 0usize;
+                let mut inited = InitGuard { ptr: out_ptr, len: 0 };
 
                 for i in 0..M {
                     match seq.next_element_seed(RowSeed::<T, N>(PhantomData))? {
                         Some(row) => {
                             unsafe { out_ptr.add(i).write(row) };
-                            inited += 1;
+                            inited.len += 1;
                         }
                         None => {
-                            unsafe {
-                                for j in 0..inited {
-                                    ptr::drop_in_place(out_ptr.add(j));
-                                }
-                            }
                             return Err(serde::de::Error::invalid_length(i, &self));
                         }
                     }
                 }
 
                 if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
-                    unsafe {
-                        for j in 0..inited {
-                            ptr::drop_in_place(out_ptr.add(j));
-                        }
-                    }
                     return Err(serde::de::Error::invalid_length(M + 1, &self));
                 }
 
+                core::mem::forget(inited);
                 Ok(Matrix { data: unsafe { out.assume_init() } })
             }
         }
-- 
2.43.0


From 33eba9c8fdaf36fc3459be6010cfb2447d80c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 11/54] fix: Quaternion::to_dcm returned the To -> From matrix

---
 crates/aether_core/src/attitude/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index 72c2c7d..f472d5f 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -164,9 +164,9 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let yz = y * z;
 
         let m = Matrix::<T, 3, 3>::new([
-            [ ww + xx - yy - zz, two * (xy - wz),     two * (xz + wy) ],
-            [ two * (xy + wz),   ww - xx + yy - zz,  two * (yz - wx) ],
-            [ two * (xz - wy),   two * (yz + wx),    ww - xx - yy + zz ],
+            [ ww + xx - yy - zz, two * (xy + wz),     two * (xz - wy) ],
+            [ two * (xy - wz),   ww - xx + yy - zz,  two * (yz + wx) ],
+            [ two * (xz + wy),   two * (yz - wx),    ww - xx - yy + zz ],
         ]);
 
         DirectionCosineMatrix::from_matrix(m)
-- 
2.43.0


From 0add002689db3bd8e5f386da5db2a2c8cc6644c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 12/54] fix: quaternion composition applied the rotations in
 the wrong order

---
 crates/aether_core/src/attitude/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index f472d5f..4b4185f 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -248,9 +248,9 @@ impl<T: Real, From: ReferenceFrame, Mid: ReferenceFrame, To: ReferenceFrame>
 
     #[inline]
     fn mul(self, rhs: &Quaternion<T, From, Mid>) -> Self::Output {
-        // Hamilton product: self x rhs
-        let [w1, x1, y1, z1] = self.data.data; // Mid -> To
-        let [w2, x2, y2, z2] = rhs.data.data;  // From -> Mid
+        // Passive transforms chain as q1* (q0* v q0) q1, so the Hamilton product is rhs x self
+        let [w1, x1, y1, z1] = rhs.data.data;  // From -> Mid
+        let [w2, x2, y2, z2] = self.data.data; // Mid -> To
 
         Quaternion::new(
             w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2,
-- 
2.43.0


From 22060e7dfbfeff2f4adab1bd4a18d06efad823ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 13/54] fix: quaternion integration used non-pure rate
 quaternions and wrong Taylor terms

---
 crates/aether_core/src/attitude/quaternion.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index 4b4185f..d37ed09 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -201,21 +201,21 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
 
         let one = T::ONE;
         let two = one + one;
-        let three = two + one;
         let four = two + two;
-        let nine = three * three;
 
         let half = one / two;
         let quarter = one / four;
-        let ninth = one / nine;
+        let eighth = quarter * half;
+        let sixth = one / (four + two);
 
-        let ang_acc_quat = Quaternion::from_parts(one, ang_acc);
-        let ang_vel_quat = Quaternion::from_parts(one, ang_vel);
+        // Angular rates are pure quaternions
+        let ang_acc_quat = Quaternion::from_parts(T::ZERO, ang_acc);
+        let ang_vel_quat = Quaternion::from_parts(T::ZERO, ang_vel);
 
         let q_dot = q.mul_raw(&ang_vel_quat) * half;
         let q_ddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_acc_quat) * half;
-        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * (one / (three + three))
+        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * eighth
             + q.mul_raw(&ang_acc_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_vel_quat).mul_raw(&ang_acc_quat) * half;
 
@@ -223,8 +223,8 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let dt3 = dt2 * dt;
 
         let mut new_q = q + q_dot * dt;
-        new_q = new_q + q_ddot * (quarter * dt2);
-        new_q = new_q + q_dddot * (ninth * dt3);
+        new_q = new_q + q_ddot * (half * dt2);
+        new_q = new_q + q_dddot * (sixth * dt3);
 
         new_q.normalized()
     }
-- 
2.43.0


From f8c53887cab9d5e82c055600bd1121b1b22f4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 14/54] fix: no_std signum returned zero for zero, unlike the
 std build

---
 crates/aether_core/src/real/no_std_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_core/src/real/no_std_impl.rs b/crates/aether_core/src/real/no_std_impl.rs
index 690a6bc..97a8f93 100644
--- a/crates/aether_core/src/real/no_std_impl.rs
+++ b/crates/aether_core/src/real/no_std_impl.rs
@@ -11,7 +11,7 @@ impl Real for f32 {
 
     #[inline] fn abs(self) -> Self { libm::fabsf(self) }
     #[inline] fn signum(self) -> Self {
-        if self.is_nan() { self } else if self > 0.0 { 1.0 } else if self < 0.0 { -1.0 } else { self }
+        if self.is_nan() { self } else { Real::copysign(1.0, self) }
     }
     #[inline] fn floor(self) -> Self { libm::floorf(self) }
     #[inline] fn ceil(self) -> Self { libm::ceilf(self) }
@@ -55,7 +55,7 @@ impl Real for f64 {
 
     #[inline] fn abs(self) -> Self { libm::fabs(self) }
     #[inline] fn signum(self) -> Self {
-        if self.is_nan() { self } else if self > 0.0 { 1.0 } else if self < 0.0 { -1.0 } else { self }
+        if self.is_nan() { self } else { Real::copysign(1.0, self) }
     }
     #[inline] fn floor(self) -> Self { libm::floor(self) }
     #[inline] fn ceil(self) -> Self { libm::ceil(self) }
-- 
2.43.0


From e95b5b999d7ea16ae23f1cfb15b2e707d7c0c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:16 +0000
Subject: [PATCH 15/54] fix: Euler angles were NaN or another rotation at a
 pitch of 90 degrees

---
 crates/aether_core/src/attitude/euler.rs | 33 +++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/crates/aether_core/src/attitude/euler.rs b/crates/aether_core/src/attitude/euler.rs
index 8fdd4c5..8c530e4 100644
--- a/crates/aether_core/src/attitude/euler.rs
+++ b/crates/aether_core/src/attitude/euler.rs
@@ -35,6 +35,12 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Euler<T, From, To> {
 // ===== Conversions =====
 //
 
+/// At a pitch of +-90 degrees only the sum or difference of roll and yaw is defined.
+fn gimbal_locked<T: Real>(sin_pitch: T) -> bool {
+    let two = T::ONE + T::ONE;
+    sin_pitch.abs() >= T::ONE - two * two * T::EPSILON
+}
+
 impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
     core::convert::From<&Quaternion<T, From, To>> for Euler<T, From, To>
 {
@@ -47,11 +53,6 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
         let two = T::ONE + T::ONE;
         let one = T::ONE;
 
-        // Roll (x-axis)
-        let sinr_cosp = two * (w * x + y * z);
-        let cosr_cosp = one - two * (x * x + y * y);
-        let roll = sinr_cosp.atan2(cosr_cosp);
-
         // Pitch (y-axis)
         let sinp = two * (w * y - z * x);
         let half_pi = T::FRAC_PI_2;
@@ -61,6 +62,17 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
             sinp.asin()
         };
 
+        if gimbal_locked(sinp) {
+            // Roll and yaw turn about the same axis: keep roll at zero
+            let yaw = (two * (w * z - x * y)).atan2(one - two * (x * x + z * z));
+            return Self::new(T::ZERO, pitch, yaw);
+        }
+
+        // Roll (x-axis)
+        let sinr_cosp = two * (w * x + y * z);
+        let cosr_cosp = one - two * (x * x + y * y);
+        let roll = sinr_cosp.atan2(cosr_cosp);
+
         // Yaw (z-axis)
         let siny_cosp = two * (w * z + x * y);
         let cosy_cosp = one - two * (y * y + z * z);
@@ -78,8 +90,17 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
         let m = &dcm.as_matrix().data;
 
         // ZYX convention (yaw-pitch-roll), passive From -> To
+        // Rounding may leave the sine of the pitch just outside [-1, 1]
+        let sinp  = (-m[0][2]).max(-T::ONE).min(T::ONE);
+        let pitch = sinp.asin();
+
+        if gimbal_locked(sinp) {
+            // Roll and yaw turn about the same axis: keep roll at zero
+            let yaw = (-m[1][0]).atan2(m[1][1]);
+            return Self::new(T::ZERO, pitch, yaw);
+        }
+
         let yaw   = m[0][1].atan2(m[0][0]);
-        let pitch = -(m[0][2]).asin();
         let roll  = m[1][2].atan2(m[2][2]);
 
         Self::new(roll, pitch, yaw)
-- 
2.43.0


From 23b9c3aa6b7f14599cc56af38265112791fe734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 16/54] fix: CSV plotter recorded rows of some columns after a
 missing column

---
 crates/aether_viz/src/realtime.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index d7d8fed..d20c4b3 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -316,23 +316,25 @@ impl CsvRealtimePlotter {
                 return Ok(());
             }
 
-            self.x_index = Some(
-                self
+            let x_index = self
                 .headers
                 .iter()
                 .position(|h| h == &self.cfg.x_column)
-                .ok_or_else(|| format!("x column '{}' not found", self.cfg.x_column))?,
-            );
+                .ok_or_else(|| format!("x column '{}' not found", self.cfg.x_column))?;
 
-            self.y_indices.clear();
+            let mut y_indices = Vec::with_capacity(self.cfg.y_columns.len());
             for y in &self.cfg.y_columns {
                 let yi = self
                     .headers
                     .iter()
                     .position(|h| h == y)
                     .ok_or_else(|| format!("y column '{}' not found", y))?;
-                self.y_indices.push(yi);
+                y_indices.push(yi);
             }
+
+            // All or nothing: a missing column must not leave some of them selected
+            self.x_index = Some(x_index);
+            self.y_indices = y_indices;
             return Ok(());
         }
 
-- 
2.43.0


From d4b95c78c9c5ffda32fe2f333460fe4b5868a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 17/54] fix: CSV plotter failed on a character cut off at the
 end of the file

---
 crates/aether_viz/src/realtime.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index d20c4b3..4bf17de 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -209,9 +209,8 @@ impl CsvRealtimePlotter {
         }
 
         let mut file = File::open(&self.cfg.csv_path)?;
-        let mut text = String::new();
-        file.read_to_string(&mut text)?;
-        self.file_pos = text.as_bytes().len() as u64;
+        let text = read_text(&mut file)?;
+        self.file_pos = text.len() as u64;
         self.last_identity = Some(FileIdentity::from_path(&self.cfg.csv_path)?);
 
         let _ = self.parse_text_chunk(&text)?;
@@ -221,9 +220,8 @@ impl CsvRealtimePlotter {
     fn read_new_bytes(&mut self, start: u64) -> Result<bool, Box<dyn std::error::Error>> {
         let mut file = File::open(&self.cfg.csv_path)?;
         file.seek(SeekFrom::Start(start))?;
-        let mut text = String::new();
-        file.read_to_string(&mut text)?;
-        self.file_pos = file.stream_position()?;
+        let text = read_text(&mut file)?;
+        self.file_pos = start + text.len() as u64;
         if text.is_empty() {
             return Ok(false);
         }
@@ -415,3 +413,15 @@ impl CsvRealtimePlotter {
 fn split_csv_line(line: &str) -> Vec<&str> {
     line.split(',').map(|s| s.trim()).collect()
 }
+
+/// Reads the rest of the file; a character still being written at its end is left for the next read.
+fn read_text(file: &mut File) -> Result<String, Box<dyn std::error::Error>> {
+    let mut bytes = Vec::new();
+    file.read_to_end(&mut bytes)?;
+    if let Err(e) = std::str::from_utf8(&bytes) {
+        if e.error_len().is_none() {
+            bytes.truncate(e.valid_up_to());
+        }
+    }
+    Ok(String::from_utf8(bytes)?)
+}
-- 
2.43.0


From 1e20fbf6368175ee737ebaeace70ec4acfa5838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:40 +0000
Subject: [PATCH 18/54] fix: CSV plotter mixed two files when the file was
 replaced during a poll

---
 crates/aether_viz/src/realtime.rs | 54 ++++++++++++++++---------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index 4bf17de..df4ba3a 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -50,8 +50,8 @@ struct FileIdentity {
 }
 
 impl FileIdentity {
-    fn from_path(path: &Path) -> std::io::Result<Self> {
-        let md = std::fs::metadata(path)?;
+    fn of(file: &File) -> std::io::Result<Self> {
+        let md = file.metadata()?;
         #[cfg(unix)]
         {
             use std::os::unix::fs::MetadataExt;
@@ -122,25 +122,24 @@ impl CsvRealtimePlotter {
     }
 
     pub fn update_once(&mut self) -> Result<bool, Box<dyn std::error::Error>> {
-        if !self.cfg.csv_path.exists() {
+        // The path may be replaced at any time: identity and contents come from one open file
+        let Some(mut file) = open_if_exists(&self.cfg.csv_path)? else {
             return Ok(false);
-        }
-
-        let current_id = FileIdentity::from_path(&self.cfg.csv_path)?;
+        };
+        let current_id = FileIdentity::of(&file)?;
 
         if self.should_reset_for_new_file(current_id) {
             self.reset_series();
-            self.reload_from_start()?;
+            self.last_identity = Some(current_id);
+            self.read_new_bytes(&mut file)?;
             return Ok(true);
         }
 
-        let mut changed = false;
+        self.last_identity = Some(current_id);
         if current_id.len > self.file_pos {
-            changed |= self.read_new_bytes(self.file_pos)?;
+            return self.read_new_bytes(&mut file);
         }
-
-        self.last_identity = Some(current_id);
-        Ok(changed)
+        Ok(false)
     }
 
     pub fn render(&self) -> Result<(), Box<dyn std::error::Error>> {
@@ -204,24 +203,19 @@ impl CsvRealtimePlotter {
     }
 
     fn reload_from_start(&mut self) -> Result<(), Box<dyn std::error::Error>> {
-        if !self.cfg.csv_path.exists() {
+        let Some(mut file) = open_if_exists(&self.cfg.csv_path)? else {
             return Ok(());
-        }
-
-        let mut file = File::open(&self.cfg.csv_path)?;
-        let text = read_text(&mut file)?;
-        self.file_pos = text.len() as u64;
-        self.last_identity = Some(FileIdentity::from_path(&self.cfg.csv_path)?);
-
-        let _ = self.parse_text_chunk(&text)?;
+        };
+        self.file_pos = 0;
+        self.last_identity = Some(FileIdentity::of(&file)?);
+        self.read_new_bytes(&mut file)?;
         Ok(())
     }
 
-    fn read_new_bytes(&mut self, start: u64) -> Result<bool, Box<dyn std::error::Error>> {
-        let mut file = File::open(&self.cfg.csv_path)?;
-        file.seek(SeekFrom::Start(start))?;
-        let text = read_text(&mut file)?;
-        self.file_pos = start + text.len() as u64;
+    fn read_new_bytes(&mut self, file: &mut File) -> Result<bool, Box<dyn std::error::Error>> {
+        file.seek(SeekFrom::Start(self.file_pos))?;
+        let text = read_text(file)?;
+        self.file_pos += text.len() as u64;
         if text.is_empty() {
             return Ok(false);
         }
@@ -414,6 +408,14 @@ fn split_csv_line(line: &str) -> Vec<&str> {
     line.split(',').map(|s| s.trim()).collect()
 }
 
+fn open_if_exists(path: &Path) -> std::io::Result<Option<File>> {
+    match File::open(path) {
+        Ok(file) => Ok(Some(file)),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+        Err(e) => Err(e),
+    }
+}
+
 /// Reads the rest of the file; a character still being written at its end is left for the next read.
 fn read_text(file: &mut File) -> Result<String, Box<dyn std::error::Error>> {
     let mut bytes = Vec::new();
-- 
2.43.0


From 023ab427484bf0cf343fd4661606a4e646f8c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:08 +0000
Subject: [PATCH 19/54] fix: CSV plotter duplicated all rows when initialised
 again

---
 crates/aether_viz/src/realtime.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index df4ba3a..4e7a406 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -102,6 +102,7 @@ impl CsvRealtimePlotter {
     }
 
     pub fn initialize(&mut self) -> Result<(), Box<dyn std::error::Error>> {
+        self.reset_series();
         self.reload_from_start()
     }
 
-- 
2.43.0


From 9e98271741dd63b12666b68765dec76ae1a26995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:52 +0000
Subject: [PATCH 20/54] fix: uniform f32 draws could return 1.0

---
 crates/aether_rand/src/randomizers/xor_shift.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/aether_rand/src/randomizers/xor_shift.rs b/crates/aether_rand/src/randomizers/xor_shift.rs
index dc5715b..40e8e5a 100644
--- a/crates/aether_rand/src/randomizers/xor_shift.rs
+++ b/crates/aether_rand/src/randomizers/xor_shift.rs
@@ -25,7 +25,13 @@ impl XorShift64Star {
     pub fn next_real<T: Real>(&mut self) -> T {
         const DEN: f64 = (1u64 << 53) as f64;
         let unit = ((self.next_u64() >> 11) as f64) / DEN;
-        T::from_f64(unit)
+        let value = T::from_f64(unit);
+        // Rounding to a narrower type may reach 1, which is outside [0, 1).
+        if value >= T::ONE {
+            T::ONE - T::EPSILON
+        } else {
+            value
+        }
     }
 
     #[inline]
-- 
2.43.0


From eba63b6eb179d2ce35bafb9c0128b35ed1ff4948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:52 +0000
Subject: [PATCH 21/54] fix: gradient descent did not project its starting
 point into the bounds

---
 crates/aether_opt/src/gradient_descent/basic.rs               | 1 +
 crates/aether_opt/src/gradient_descent/stochastic.rs          | 1 +
 crates/aether_opt/src/gradient_descent/stochastic_parallel.rs | 1 +
 3 files changed, 3 insertions(+)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index 49d2ef9..658a610 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -175,6 +175,7 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
         // Momentum state (v = x_k - x_{k-1}); initial 0
         let mut v = Vector::new([F::ZERO; N]);
 
+        x = self.project(x);
         let mut fx = f(&x);
         let mut converged = false;
 
diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 245fab8..42bb1d2 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -187,6 +187,7 @@ impl<const N: usize> GDStochastic<N> {
     {
         let mut v = Vector::new([0.0; N]);
         let mut ema_g = 0.0;
+        x = self.project(x);
         let mut fx = f(&x);
 
         for k in 0..self.max_iters {
diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index 59bfd8d..93b7aad 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -230,6 +230,7 @@ impl<F: Real + Copy + Send, const N: usize> GDStochasticParallel<F, N> {
 
         let mut v = Vector::new([F::ZERO; N]); // momentum buffer (Δx)
         let mut ema_g = F::ZERO;
+        x = self.project(x);
         let mut fx = f(&x);
 
         for k in 0..self.max_iters {
-- 
2.43.0


From 1f84ac9e1a566752785276a333170ef22bbb5ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:52 +0000
Subject: [PATCH 22/54] fix: line search stalled and reported convergence when
 a bound was active

---
 crates/aether_opt/src/gradient_descent/basic.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index 658a610..356442e 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -199,7 +199,7 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
             let fx_old = fx;
 
             if self.use_backtracking {
-                // Armijo condition: f(x + a d) <= f(x) + c1 * a * grad·d
+                // Armijo condition: f(P[x + a d]) <= f(x) + c1 * grad·(P[x + a d] - x)
                 let mut gd = F::ZERO;
                 for i in 0..N {
                     gd = gd + grad[i] * d[i];
@@ -210,7 +210,6 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
                     for i in 0..N {
                         d[i] = -grad[i];
                     }
-                    gd = -grad_norm * grad_norm;
                 }
 
                 loop {
@@ -220,9 +219,15 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
                     }
                     trial = self.project(trial);
                     let f_trial = f(&trial);
-                    let rhs = fx_old + self.armijo_c1 * step * gd;
+                    // Decrease predicted for the move actually made: the projection may
+                    // have removed part of it.
+                    let mut slope = F::ZERO;
+                    for i in 0..N {
+                        slope = slope + grad[i] * (trial[i] - x_old[i]);
+                    }
+                    let rhs = fx_old + self.armijo_c1 * slope;
 
-                    if f_trial <= rhs {
+                    if f_trial <= rhs && f_trial <= fx_old {
                         x = trial;
                         fx = f_trial;
                         break;
-- 
2.43.0


From 64b88e0e40ca06a7287b3a6fa3d1efb3862cc8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:52 +0000
Subject: [PATCH 23/54] fix: line search accepted an uphill step when it gave
 up

---
 crates/aether_opt/src/gradient_descent/basic.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index 356442e..90df9f9 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -235,9 +235,11 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
 
                     step = step * self.backtrack_tau;
                     if step <= F::from_f64(1e-20_f64) {
-                        // give up this iteration; behave like tiny step
-                        x = trial;
-                        fx = f_trial;
+                        // give up this iteration; never move uphill
+                        if f_trial <= fx_old {
+                            x = trial;
+                            fx = f_trial;
+                        }
                         break;
                     }
                 }
-- 
2.43.0


From 66a603ac6548ae3a2af4c4d1b7d2d566a014595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:52 +0000
Subject: [PATCH 24/54] fix: stochastic descent stopped at once when the
 objective was negative

---
 crates/aether_opt/src/gradient_descent/stochastic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 42bb1d2..2a81313 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -218,7 +218,7 @@ impl<const N: usize> GDStochastic<N> {
             };
 
             if k >= self.min_iters {
-                if ema_hat <= self.tol_grad_ema || fx <= self.tol_f {
+                if ema_hat <= self.tol_grad_ema || (self.tol_f > 0.0 && fx <= self.tol_f) {
                     return (x, fx, k, true);
                 }
             }
-- 
2.43.0


From 7a610fc113a209483a5d12212de17c81724fb7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:52 +0000
Subject: [PATCH 25/54] fix: gradient descent momentum was scaled by the
 learning rate

---
 crates/aether_opt/src/gradient_descent/basic.rs               | 2 +-
 crates/aether_opt/src/gradient_descent/stochastic.rs          | 2 +-
 crates/aether_opt/src/gradient_descent/stochastic_parallel.rs | 3 +--
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index 90df9f9..ec1ffaf 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -246,7 +246,7 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
             } else {
                 // Fixed step
                 for i in 0..N {
-                    x[i] = x[i] + step * d[i];
+                    x[i] = x[i] - step * grad[i] + self.momentum * v[i];
                 }
                 x = self.project(x);
                 fx = f(&x);
diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 2a81313..8c88391 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -227,7 +227,7 @@ impl<const N: usize> GDStochastic<N> {
             let alpha = self.lr_at(k);
             let mut x_next = x;
             for i in 0..N {
-                x_next[i] = x[i] + alpha * (-g[i] + self.momentum * v[i]);
+                x_next[i] = x[i] - alpha * g[i] + self.momentum * v[i];
             }
             x_next = self.project(x_next);
             for i in 0..N {
diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index 93b7aad..6a5507e 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -308,8 +308,7 @@ impl<F: Real + Copy + Send, const N: usize> GDStochasticParallel<F, N> {
             let alpha = self.lr_at(k);
             let mut x_next = x;
             for i in 0..N {
-                let d_i = -g[i] + self.momentum * v[i];
-                x_next[i] = x[i] + alpha * d_i;
+                x_next[i] = x[i] - alpha * g[i] + self.momentum * v[i];
             }
             x_next = self.project(x_next);
 
-- 
2.43.0


From 6780b2159b815ad57e902edc69d67266c24f7fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:25 +0000
Subject: [PATCH 26/54] fix: parallel descent repeated a random stream when a
 derived seed was 0

---
 .../aether_opt/src/gradient_descent/stochastic_parallel.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index 6a5507e..c1f766e 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -197,8 +197,11 @@ impl<F: Real + Copy + Send, const N: usize> GDStochasticParallel<F, N> {
     // Deterministic per-thread seed for iteration k and thread t
     #[inline]
     fn thread_seed(base: u64, iter: u32, t: usize) -> u64 {
-        base ^ ((iter as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15))
-            ^ ((t as u64).wrapping_mul(0xBF58_476D_1CE4_E5B9))
+        let seed = base
+            ^ ((iter as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15))
+            ^ ((t as u64).wrapping_mul(0xBF58_476D_1CE4_E5B9));
+        // The generator replaces seed 0 by a constant that another iteration uses too.
+        if seed == 0 { 0xD1B5_4A32_D192_ED03 } else { seed }
     }
 
     /// Parallel stochastic minimize.
-- 
2.43.0


From 5ff95e2a10c4a2d6e1c3d36d834ca505c85f6d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:25 +0000
Subject: [PATCH 27/54] fix: parallel descent never stopped on the gradient
 with an averaging factor of 1

---
 crates/aether_opt/src/gradient_descent/stochastic_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index c1f766e..743edee 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -101,7 +101,7 @@ impl<F: Real + Copy + Send, const N: usize> GDStochasticParallel<F, N> {
 
     #[inline]
     pub fn ema(&mut self, beta: F) -> &mut Self {
-        self.ema_beta = clamp(beta, F::ZERO, F::ONE);
+        self.ema_beta = clamp(beta, F::ZERO, F::ONE - F::EPSILON);
         self
     }
 
-- 
2.43.0


From 6df53ac16ff65f9107d6266392909495b08771e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:05 +0000
Subject: [PATCH 28/54] fix: inverse_lerp works on ranges narrower than
 f64::EPSILON

---
 crates/aether_interp/src/lerp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_interp/src/lerp.rs b/crates/aether_interp/src/lerp.rs
index 43ea7a8..ce28f8c 100644
--- a/crates/aether_interp/src/lerp.rs
+++ b/crates/aether_interp/src/lerp.rs
@@ -16,7 +16,7 @@ where
 #[inline]
 pub fn inverse_lerp(a: f64, b: f64, value: f64) -> f64 {
     let denom = b - a;
-    if denom.abs() <= f64::EPSILON {
+    if denom == 0.0 {
         0.0
     } else {
         (value - a) / denom
-- 
2.43.0


From fa986cc85f54ccc0373c5f2ddb069d4b4c13f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:05 +0000
Subject: [PATCH 29/54] fix: lerp returns b exactly at t = 1

---
 crates/aether_interp/src/lerp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/aether_interp/src/lerp.rs b/crates/aether_interp/src/lerp.rs
index ce28f8c..0d893f6 100644
--- a/crates/aether_interp/src/lerp.rs
+++ b/crates/aether_interp/src/lerp.rs
@@ -9,7 +9,11 @@ pub fn lerp<T>(a: T, b: T, t: f64) -> T
 where
     T: Copy + Add<Output = T> + Sub<Output = T> + Mul<f64, Output = T>,
 {
-    a + (b - a) * t
+    if t < 0.5 {
+        a + (b - a) * t
+    } else {
+        b - (b - a) * (1.0 - t)
+    }
 }
 
 /// Computes the normalized interpolation parameter of `value` in `[a, b]`.
-- 
2.43.0


From 7f2f9dd99db91859b85f669e6b72aa7ced918c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:06 +0000
Subject: [PATCH 30/54] fix: polynomial interpolation compares knots exactly,
 not to within f64::EPSILON

---
 crates/aether_interp/src/polynomial.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/aether_interp/src/polynomial.rs b/crates/aether_interp/src/polynomial.rs
index 721273b..bcc1856 100644
--- a/crates/aether_interp/src/polynomial.rs
+++ b/crates/aether_interp/src/polynomial.rs
@@ -22,7 +22,7 @@ impl<const N: usize> PolynomialInterpolator<N> {
                     continue;
                 }
                 let diff = xs[j] - xs[k];
-                if diff.abs() <= f64::EPSILON {
+                if diff == 0.0 || diff.is_nan() {
                     return Err("x samples must be unique");
                 }
                 weights[j] /= diff;
@@ -35,7 +35,8 @@ impl<const N: usize> PolynomialInterpolator<N> {
     /// Evaluates the interpolating polynomial at `x`.
     pub fn evaluate(&self, x: f64) -> f64 {
         for i in 0..N {
-            if (x - self.xs[i]).abs() <= f64::EPSILON {
+            let diff = x - self.xs[i];
+            if diff == 0.0 || !(self.weights[i] / diff).is_finite() && diff.is_finite() {
                 return self.ys[i];
             }
         }
-- 
2.43.0


From 79f047c64a46d39900fa9578aeb59006a8db094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:06 +0000
Subject: [PATCH 31/54] fix: cubic spline rejects NaN knots

---
 crates/aether_interp/src/spline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_interp/src/spline.rs b/crates/aether_interp/src/spline.rs
index c9242ce..22623c7 100644
--- a/crates/aether_interp/src/spline.rs
+++ b/crates/aether_interp/src/spline.rs
@@ -15,7 +15,7 @@ impl<const N: usize> CubicSpline<N> {
             return Err("at least two samples are required");
         }
         for i in 0..N - 1 {
-            if xs[i + 1] <= xs[i] {
+            if !(xs[i + 1] > xs[i]) {
                 return Err("x samples must be strictly increasing");
             }
         }
-- 
2.43.0


From b48a88613f22037a822201f6d220f6505cdd6d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:01 +0000
Subject: [PATCH 32/54] fix: logistic regression fits the cross entropy it
 differentiates

---
 crates/aether_ml/src/regression/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_ml/src/regression/logistic.rs b/crates/aether_ml/src/regression/logistic.rs
index 8e2642f..e453611 100644
--- a/crates/aether_ml/src/regression/logistic.rs
+++ b/crates/aether_ml/src/regression/logistic.rs
@@ -94,7 +94,7 @@ impl<F: Real + Copy, const N: usize> LogisticRegression<F, N> {
         p_arr[N] = self.bias;
         let x0 = Vector::new(p_arr);
 
-        let tiny = F::ONE / (F::ONE + (F::ONE + F::ONE));
+        let tiny = F::EPSILON;
 
         let f = |pv: &Vector<F, M>| -> F {
             let mut loss = F::ZERO;
-- 
2.43.0


From 7574e18b08d6fafe43fb8211bdd08bd86f319c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 33/54] fix: square root in the closed-form geodetic inverse

---
 crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
index bf5eee2..ecf8c2c 100644
--- a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
@@ -70,7 +70,7 @@ pub fn ecef_to_geocentric_ferrari<T: Real>(x: T, y: T, z: T) -> Vector<T, 3> {
     let ff = T::from_f64(54.0) * b2 * z2;
     let g = r2 + (T::ONE - e_2) * z2 - e_2 * e2_2;
     let c = e_2.powf(two) * ff * r2 / g.powf(T::from_f64(3.0));
-    let s = (T::ONE + c + (c.powf(two) + two * c)).powf(T::ONE / T::from_f64(3.0));
+    let s = (T::ONE + c + (c.powf(two) + two * c).sqrt()).powf(T::ONE / T::from_f64(3.0));
     let pp = ff / (T::from_f64(3.0) * (s + T::ONE / s + T::ONE).powf(two) * g.powf(two));
     let q = (T::ONE + two * e_2.powf(two) * pp).sqrt();
 
-- 
2.43.0


From 61c6eda9e0cc466f2608c54a0db5db2d3e8f6bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 34/54] fix: normal gravity on the ellipsoid uses squared sines
 and the square root

---
 crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
index b166853..5774a42 100644
--- a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
@@ -11,7 +11,8 @@ use crate::{
 use core::marker::PhantomData;
 
 pub fn gravity_normal(latitude: f64) -> f64 {
-    return g_e * (1.0 + k * latitude.sin().sin()) / (1.0 - e2 * latitude.sin().sin());
+    let sin2 = latitude.sin().powf(2.0);
+    return g_e * (1.0 + k * sin2) / (1.0 - e2 * sin2).sqrt();
 }
 
 fn ellipsoidal_beta(x: f64, y: f64, z: f64, u: f64) -> f64 {
-- 
2.43.0


From 2056df4a5ec7c0a70c57f7f41cd7102bdae97438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 35/54] fix: gravity above the ellipsoid uses squared sines and
 cosines

---
 crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
index 5774a42..1a44cd5 100644
--- a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
@@ -32,7 +32,7 @@ fn ellipsoidal_height(x: f64, y: f64, z: f64) -> f64 {
 
 fn ellipsoidal_w(u: f64, beta: f64) -> f64 {
     let ellip_w =
-        ((u.powf(2.0) + E.powf(2.0) * (beta.sin().sin())) / (u.powf(2.0) + E.powf(2.0))).sqrt();
+        ((u.powf(2.0) + E.powf(2.0) * beta.sin().powf(2.0)) / (u.powf(2.0) + E.powf(2.0))).sqrt();
     return ellip_w;
 }
 
@@ -54,9 +54,9 @@ pub fn gravity_ellipsoidal(x: f64, y: f64, z: f64) -> Vector<f64, 3> {
         * ((GM / (u.powf(2.0) + E.powf(2.0)))
             + (w.powf(2.0) * a.powf(2.0) * E) / (u.powf(2.0) + E.powf(2.0))
                 * (qprime / q_0)
-                * (0.5 * beta.sin().sin() - 1.0 / 6.0))
-        + 1.0 / ellip_w * w.powf(2.0) * u * beta.cos().cos();
-    let g_b = 1.0 / ellip_w * (w.powf(2.0) * a.powf(2.0) / (u.powf(2.0) + E.powf(2.0))) * q / q_0
+                * (0.5 * beta.sin().powf(2.0) - 1.0 / 6.0))
+        + 1.0 / ellip_w * w.powf(2.0) * u * beta.cos().powf(2.0);
+    let g_b = 1.0 / ellip_w * (w.powf(2.0) * a.powf(2.0) / (u.powf(2.0) + E.powf(2.0)).sqrt()) * q / q_0
         * beta.sin()
         * beta.cos()
         - 1.0 / ellip_w
-- 
2.43.0


From 3ef15821b6839aba3da687062b4bd2d4c382fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 36/54] fix: standard gravity of the 1976 atmosphere is 9.80665
 m/s^2

---
 crates/aether_models/src/terrestrial/atmospheres/ussa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index b4cdb2c..3f52d5a 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -17,7 +17,7 @@ impl USSA {
     pub const R_Star: f64 = 8.31432e3; // J/(mol*K)
     pub const air_molar_mass: f64 = 28.9644; // kg/mol
     pub const R_Air: f64 = USSA::R_Star / USSA::air_molar_mass; // J/(kg*K)
-    pub const g_0: f64 = 9.80655; // m/s^2
+    pub const g_0: f64 = 9.80665; // m/s^2
     pub const gamma: f64 = 1.4; // dimensionless
     const base_geometric_heights: [f64; 13] = [
         0.0, 11019.0, 20063.0, 32162.0, 47350.0, 51413.0, 71802.0, 86000.0, 91000.0, 110000.0,
-- 
2.43.0


From bce7f5ac0fe792843a4d0e5edd5e4a3cd440afc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 37/54] fix: speed of sound is the square root of gamma R T

---
 crates/aether_models/src/terrestrial/atmospheres/ussa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 3f52d5a..11d3188 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -168,7 +168,7 @@ impl USSA {
         let temperature = self
             .temperature(geometric_height)
             .expect("Could not determine temperature.");
-        return Ok(1.4 * Self::R_Star / Self::air_molar_mass * temperature);
+        return Ok((1.4 * Self::R_Star / Self::air_molar_mass * temperature).sqrt());
     }
 
     pub fn dynamic_viscosity(&self, geometric_height: f64) -> Result<f64, &'static str> {
-- 
2.43.0


From c5eb8e945b103e3383496c1c9d91875da01bd554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 38/54] fix: the 1976 atmosphere reports heights above its
 table instead of panicking

---
 .../src/terrestrial/atmospheres/ussa.rs          | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 11d3188..c287d8b 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -47,7 +47,7 @@ impl USSA {
 
     fn get_base_index(&self, geometric_height: f64) -> Result<usize, &'static str> {
         let mut i = 0;
-        for _value in Self::base_geometric_heights {
+        while i + 1 < Self::base_geometric_heights.len() {
             if geometric_height < Self::base_geometric_heights[i + 1] {
                 return Ok(i);
             } else {
@@ -84,7 +84,7 @@ impl USSA {
     pub fn temperature(&self, geometric_height: f64) -> Result<f64, Constraint> {
         let base_index = self
             .get_base_index(geometric_height)
-            .expect("Could not determine base index.");
+            .map_err(|_| Constraint::NoGradient)?;
         let gradient_index_result = self.get_gradient_index(base_index);
         match gradient_index_result {
             Ok(gradient_index) => {
@@ -134,7 +134,9 @@ impl USSA {
             Ok(gradient_index) => {
                 let base_temperature = Self::base_geometric_temperatures[base_index];
                 let base_pressure = Self::base_geometric_pressures[base_index];
-                let temperature = self.temperature(geometric_height).unwrap();
+                let temperature = self
+                    .temperature(geometric_height)
+                    .map_err(|_| "Could not determine temperature.")?;
                 let lapse_rate = Self::base_lapse_rates[gradient_index];
 
                 if lapse_rate != 0.0 {
@@ -158,7 +160,9 @@ impl USSA {
     }
 
     pub fn density(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        let temperature = self.temperature(geometric_height).unwrap();
+        let temperature = self
+            .temperature(geometric_height)
+            .map_err(|_| "Could not determine temperature.")?;
         let pressure = self.pressure(geometric_height)?;
         let density = (pressure * Self::air_molar_mass) / (Self::R_Star * temperature);
         return Ok(density);
@@ -167,14 +171,14 @@ impl USSA {
     pub fn speed_of_sound(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let temperature = self
             .temperature(geometric_height)
-            .expect("Could not determine temperature.");
+            .map_err(|_| "Could not determine temperature.")?;
         return Ok((1.4 * Self::R_Star / Self::air_molar_mass * temperature).sqrt());
     }
 
     pub fn dynamic_viscosity(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let temperature = self
             .temperature(geometric_height)
-            .expect("Could not determine temperature.");
+            .map_err(|_| "Could not determine temperature.")?;
         let viscosity = Self::dynamic_viscosity_nist_A * (temperature).powf(1.5)
             / (temperature + Self::dynamic_viscosity_nist_B)
             * 0.1; // 0.1 is to convert to Pascal*second
-- 
2.43.0


From 8bb469f7ca8ab77d26fea33be950508e4edc4648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 39/54] fix: Earth atmosphere queries return their errors
 instead of panicking

---
 crates/aether_models/src/terrestrial/earth.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/earth.rs b/crates/aether_models/src/terrestrial/earth.rs
index f1026c8..8516c7a 100644
--- a/crates/aether_models/src/terrestrial/earth.rs
+++ b/crates/aether_models/src/terrestrial/earth.rs
@@ -123,25 +123,25 @@ impl Earth {
         return Ok(self
             .atmosphere
             .temperature(geometric_height)
-            .expect("Could not get temperature."));
+            .map_err(|_| "Could not get temperature.")?);
     }
     pub fn get_pressure(&self, geometric_height: f64) -> Result<f64, &'static str> {
         return Ok(self
             .atmosphere
             .pressure(geometric_height)
-            .expect("Could not get pressure."));
+            .map_err(|_| "Could not get pressure.")?);
     }
     pub fn get_density(&self, geometric_height: f64) -> Result<f64, &'static str> {
         return Ok(self
             .atmosphere
             .density(geometric_height)
-            .expect("Could not get density."));
+            .map_err(|_| "Could not get density.")?);
     }
     pub fn get_speed_of_sound(&self, geometric_height: f64) -> Result<f64, &'static str> {
         return Ok(self
             .atmosphere
             .speed_of_sound(geometric_height)
-            .expect("Could not get speed of sound."));
+            .map_err(|_| "Could not get speed of sound.")?);
     }
 }
 
-- 
2.43.0


From 820bba043a39046e8944a17bd9e6dc8fb142597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 40/54] fix: the 1976 atmosphere applies lapse rates over
 geopotential height

---
 .../src/terrestrial/atmospheres/ussa.rs            | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index c287d8b..39dcf00 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -65,6 +65,10 @@ impl USSA {
         }
     }
 
+    fn geopotential_height(geometric_height: f64) -> f64 {
+        Self::r_0 * geometric_height / (Self::r_0 + geometric_height)
+    }
+
     fn base_temperature(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let base_index = self.get_base_index(geometric_height)?;
         return Ok(Self::base_geometric_temperatures[base_index]);
@@ -91,7 +95,10 @@ impl USSA {
                 if geometric_height < 86000.0 {
                     return Ok(Self::base_geometric_temperatures[base_index]
                         + Self::base_lapse_rates[gradient_index]
-                            * (geometric_height - Self::base_geometric_heights[base_index]));
+                            * (Self::geopotential_height(geometric_height)
+                                - Self::geopotential_height(
+                                    Self::base_geometric_heights[base_index],
+                                )));
                 } else if geometric_height < 91000.0 {
                     let temperature = Self::base_geometric_temperatures[base_index];
                     return Ok(temperature);
@@ -149,7 +156,10 @@ impl USSA {
                     let pressure = base_pressure
                         * ((-Self::g_0
                             * Self::air_molar_mass
-                            * (geometric_height - Self::base_geometric_heights[base_index]))
+                            * (Self::geopotential_height(geometric_height)
+                                - Self::geopotential_height(
+                                    Self::base_geometric_heights[base_index],
+                                )))
                             / (Self::R_Star * temperature))
                             .exp();
                     return Ok(pressure);
-- 
2.43.0


From 64492c9e27e49aaee4e15dad8ef59214141a3479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 41/54] fix: temperature from 91 to 110 km follows the elliptic
 law

---
 crates/aether_models/src/terrestrial/atmospheres/ussa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 39dcf00..4f6e2b8 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -110,7 +110,7 @@ impl USSA {
                         + A * ((1.0
                             - ((geometric_height - Self::base_geometric_heights[base_index]) / a)
                                 .powf(2.0))
-                        .exp());
+                        .sqrt());
                     return Ok(temperature);
                 } else if geometric_height < 1000000.0 {
                     let t_inf = 1000.0;
-- 
2.43.0


From a7641bda3b6f95b6e85e350a49f4a39f3ee18784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 42/54] fix: temperature above 110 km is linear to 120 km and
 exponential from there

---
 crates/aether_models/src/terrestrial/atmospheres/ussa.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 4f6e2b8..568ba6f 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -112,15 +112,18 @@ impl USSA {
                                 .powf(2.0))
                         .sqrt());
                     return Ok(temperature);
+                } else if geometric_height < 120000.0 {
+                    return Ok(Self::base_geometric_temperatures[base_index]
+                        + 12.0e-3 * (geometric_height - Self::base_geometric_heights[base_index]));
                 } else if geometric_height < 1000000.0 {
                     let t_inf = 1000.0;
                     let lambda = 0.01875;
-                    let eta = (geometric_height - Self::base_geometric_heights[9])
-                        * (Self::r_0 + Self::base_geometric_heights[9])
+                    let eta = (geometric_height - Self::base_geometric_heights[10])
+                        * (Self::r_0 + Self::base_geometric_heights[10])
                         / (Self::r_0 + geometric_height)
                         * 1e-3;
                     let expo = (-lambda * eta).exp();
-                    let temperature = t_inf - (t_inf - Self::base_geometric_temperatures[9]) * expo;
+                    let temperature = t_inf - (t_inf - Self::base_geometric_temperatures[10]) * expo;
                     return Ok(temperature);
                 } else {
                     return Ok(0.0);
-- 
2.43.0


From b41bba6792fb0a091a010ece62df86cb25abf37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 43/54] fix: lunar inertial to fixed transforms count time from
 the epoch

---
 crates/aether_models/src/lunar/moon.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_models/src/lunar/moon.rs b/crates/aether_models/src/lunar/moon.rs
index 11e9d21..b83d2c8 100644
--- a/crates/aether_models/src/lunar/moon.rs
+++ b/crates/aether_models/src/lunar/moon.rs
@@ -95,11 +95,11 @@ impl Moon {
     }
 
     pub fn lirf_to_ltrf(&self, time: f64) -> DirectionCosineMatrix<f64, LIRF, LTRF> {
-        transforms::lirf_to_ltrf(time)
+        transforms::lirf_to_ltrf(time - self.epoch_time)
     }
 
     pub fn ltrf_to_lirf(&self, time: f64) -> DirectionCosineMatrix<f64, LTRF, LIRF> {
-        transforms::ltrf_to_lirf(time)
+        transforms::ltrf_to_lirf(time - self.epoch_time)
     }
 
     pub fn icrf_to_lirf(&self) -> DirectionCosineMatrix<f64, ICRF<f64>, LIRF> {
-- 
2.43.0


From 87a1477aa57afada811571079b224e6c872e0bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 44/54] fix: star velocity is in au per year, as its field
 says, not km/s

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 4d6bfd2..d9640ad 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -223,7 +223,7 @@ impl IcrsPropagator for GncRecord {
         let velocity = match (self.plx, self.pmra, self.pmde) {
             (Some(plx), Some(pmra), Some(pmde)) if plx > 0.0 => {
                 let plx_mas = plx as f64;
-                let scale = 4.74047 / plx_mas;
+                let scale = 1.0 / plx_mas; // mas/yr over mas is au/yr
                 let mu_ra = pmra as f64;
                 let mu_de = pmde as f64;
 
-- 
2.43.0


From 7eb60b164664289c5fbcd940e39bbc0fa4c91eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 45/54] fix: propagate right ascension by pmra over cos(dec),
 in step with the velocity

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index d9640ad..64494bd 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -195,7 +195,9 @@ impl IcrsPropagator for GncRecord {
     fn icrs_sample(&self, epoch: f64) -> GncCatalogMotionSample {
         let dt = epoch - 2016.0;
 
-        let ra_deg = self.ra_2016 + (self.pmra.unwrap_or(0.0) as f64 * dt / 3_600_000.0);
+        // pmra is measured along the sky (it includes the cosine of declination)
+        let ra_deg = self.ra_2016
+            + (self.pmra.unwrap_or(0.0) as f64 * dt / 3_600_000.0) / self.de_2016.to_radians().cos();
         let dec_deg = self.de_2016 + (self.pmde.unwrap_or(0.0) as f64 * dt / 3_600_000.0);
 
         let ra_rad = ra_deg.to_radians();
-- 
2.43.0


From 0a0b2d183f09c03bdd881338ee6a880eff0258e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 46/54] fix: position uncertainty of non-Gaia stars is not NaN
 between the catalogue epochs

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 64494bd..ae55969 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -141,8 +141,8 @@ impl GncCatalogReader {
             }
             _ => {
                 let delta_t2 = (t - 1991.25_f64).powi(2) - (2016.0_f64 - 1991.25_f64).powi(2);
-                let e_ra = (e_ra_2016.powi(2) + e_pmra.powi(2) * delta_t2).sqrt();
-                let e_de = (e_de_2016.powi(2) + e_pmde.powi(2) * delta_t2).sqrt();
+                let e_ra = (e_ra_2016.powi(2) + e_pmra.powi(2) * delta_t2).max(0.0).sqrt();
+                let e_de = (e_de_2016.powi(2) + e_pmde.powi(2) * delta_t2).max(0.0).sqrt();
                 (e_ra, e_de)
             }
         };
-- 
2.43.0


From bc1dccee2a93363ae447a215006c0cc6df728c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 47/54] fix: prefixed units use double precision factors

---
 crates/aether_units/src/si/si_prefix.rs | 122 ++++++++++++------------
 1 file changed, 61 insertions(+), 61 deletions(-)

diff --git a/crates/aether_units/src/si/si_prefix.rs b/crates/aether_units/src/si/si_prefix.rs
index fc79de3..10cc5a8 100644
--- a/crates/aether_units/src/si/si_prefix.rs
+++ b/crates/aether_units/src/si/si_prefix.rs
@@ -35,7 +35,7 @@ macro_rules! si_prefixed_unit {
         impl<T: Real> $crate::Quantity<$BaseUnit, T> {
             #[inline]
             pub fn $to_prefixed(self) -> $crate::Quantity<$PrefixUnit, T> {
-                let k = T::from_f32($factor);
+                let k = T::from_f64($factor);
                 $crate::Quantity::new(self.raw() / k)
             }
         }
@@ -44,7 +44,7 @@ macro_rules! si_prefixed_unit {
         impl<T: Real> $crate::Quantity<$PrefixUnit, T> {
             #[inline]
             pub fn $to_base(self) -> $crate::Quantity<$BaseUnit, T> {
-                let k = T::from_f32($factor);
+                let k = T::from_f64($factor);
                 $crate::Quantity::new(self.raw() * k)
             }
         }
@@ -72,28 +72,28 @@ si_prefixed_family! {
     to_base = to_meter;
 
     // tiny
-    (Yoctometer,  YOCTO, to_yoctometer),
-    (Zeptometer,  ZEPTO, to_zeptometer),
-    (Attometer,   ATTO,  to_attometer),
-    (Femtometer,  FEMTO, to_femtometer),
-    (Picometer,   PICO,  to_picometer),
-    (Nanometer,   NANO,  to_nanometer),
-    (Micrometer,  MICRO, to_micrometer),
-    (Millimeter,  MILLI, to_millimeter),
-    (Centimeter,  CENTI, to_centimeter),
-    (Decimeter,   DECI,  to_decimeter),
+    (Yoctometer,  1.0e-24_f64, to_yoctometer),
+    (Zeptometer,  1.0e-21_f64, to_zeptometer),
+    (Attometer,   1.0e-18_f64,  to_attometer),
+    (Femtometer,  1.0e-15_f64, to_femtometer),
+    (Picometer,   1.0e-12_f64,  to_picometer),
+    (Nanometer,   1.0e-9_f64,  to_nanometer),
+    (Micrometer,  1.0e-6_f64, to_micrometer),
+    (Millimeter,  1.0e-3_f64, to_millimeter),
+    (Centimeter,  1.0e-2_f64, to_centimeter),
+    (Decimeter,   1.0e-1_f64,  to_decimeter),
 
     // > 1 m
-    (Decameter,   DECA,  to_decameter),
-    (Hectometer,  HECTO, to_hectometer),
-    (Kilometer,   KILO,  to_kilometer),
-    (Megameter,   MEGA,  to_megameter),
-    (Gigameter,   GIGA,  to_gigameter),
-    (Terameter,   TERA,  to_terameter),
-    (Petameter,   PETA,  to_petameter),
-    (Exameter,    EXA,   to_exameter),
-    (Zettameter,  ZETTA, to_zettameter),
-    (Yottameter,  YOTTA, to_yottameter),
+    (Decameter,   1.0e1_f64,  to_decameter),
+    (Hectometer,  1.0e2_f64, to_hectometer),
+    (Kilometer,   1.0e3_f64,  to_kilometer),
+    (Megameter,   1.0e6_f64,  to_megameter),
+    (Gigameter,   1.0e9_f64,  to_gigameter),
+    (Terameter,   1.0e12_f64,  to_terameter),
+    (Petameter,   1.0e15_f64,  to_petameter),
+    (Exameter,    1.0e18_f64,   to_exameter),
+    (Zettameter,  1.0e21_f64, to_zettameter),
+    (Yottameter,  1.0e24_f64, to_yottameter),
 }
 
 // Time (second) – yocto to yotta
@@ -101,27 +101,27 @@ si_prefixed_family! {
     base = Second;
     to_base = to_second;
 
-    (Yoctosecond,  YOCTO, to_yoctosecond),
-    (Zeptosecond,  ZEPTO, to_zeptosecond),
-    (Attosecond,   ATTO,  to_attosecond),
-    (Femtosecond,  FEMTO, to_femtosecond),
-    (Picosecond,   PICO,  to_picosecond),
-    (Nanosecond,   NANO,  to_nanosecond),
-    (Microsecond,  MICRO, to_microsecond),
-    (Millisecond,  MILLI, to_millisecond),
-    (Centisecond,  CENTI, to_centisecond),
-    (Decisecond,   DECI,  to_decisecond),
+    (Yoctosecond,  1.0e-24_f64, to_yoctosecond),
+    (Zeptosecond,  1.0e-21_f64, to_zeptosecond),
+    (Attosecond,   1.0e-18_f64,  to_attosecond),
+    (Femtosecond,  1.0e-15_f64, to_femtosecond),
+    (Picosecond,   1.0e-12_f64,  to_picosecond),
+    (Nanosecond,   1.0e-9_f64,  to_nanosecond),
+    (Microsecond,  1.0e-6_f64, to_microsecond),
+    (Millisecond,  1.0e-3_f64, to_millisecond),
+    (Centisecond,  1.0e-2_f64, to_centisecond),
+    (Decisecond,   1.0e-1_f64,  to_decisecond),
 
-    (Decasecond,   DECA,  to_decasecond),
-    (Hectosecond,  HECTO, to_hectosecond),
-    (Kilosecond,   KILO,  to_kilosecond),
-    (Megasecond,   MEGA,  to_megasecond),
-    (Gigasecond,   GIGA,  to_gigasecond),
-    (Terasecond,   TERA,  to_terasecond),
-    (Petasecond,   PETA,  to_petasecond),
-    (Exasecond,    EXA,   to_exasecond),
-    (Zettasecond,  ZETTA, to_zettasecond),
-    (Yottasecond,  YOTTA, to_yottasecond),
+    (Decasecond,   1.0e1_f64,  to_decasecond),
+    (Hectosecond,  1.0e2_f64, to_hectosecond),
+    (Kilosecond,   1.0e3_f64,  to_kilosecond),
+    (Megasecond,   1.0e6_f64,  to_megasecond),
+    (Gigasecond,   1.0e9_f64,  to_gigasecond),
+    (Terasecond,   1.0e12_f64,  to_terasecond),
+    (Petasecond,   1.0e15_f64,  to_petasecond),
+    (Exasecond,    1.0e18_f64,   to_exasecond),
+    (Zettasecond,  1.0e21_f64, to_zettasecond),
+    (Yottasecond,  1.0e24_f64, to_yottasecond),
 }
 
 // Mass (kilogram) – prefixes conceptually apply to gram, so factor * 1e-3
@@ -129,24 +129,24 @@ si_prefixed_family! {
     base = Kilogram;
     to_base = to_kilogram;
 
-    (Yoctogram,  YOCTO * 1.0e-3_f32, to_yoctogram),
-    (Zeptogram,  ZEPTO * 1.0e-3_f32, to_zeptogram),
-    (Attogram,   ATTO  * 1.0e-3_f32, to_attogram),
-    (Femtogram,  FEMTO * 1.0e-3_f32, to_femtogram),
-    (Picogram,   PICO  * 1.0e-3_f32, to_picogram),
-    (Nanogram,   NANO  * 1.0e-3_f32, to_nanogram),
-    (Microgram,  MICRO * 1.0e-3_f32, to_microgram),
-    (Milligram,  MILLI * 1.0e-3_f32, to_milligram),
-    (Centigram,  CENTI * 1.0e-3_f32, to_centigram),
-    (Decigram,   DECI  * 1.0e-3_f32, to_decigram),
+    (Yoctogram,  1.0e-27_f64, to_yoctogram),
+    (Zeptogram,  1.0e-24_f64, to_zeptogram),
+    (Attogram,   1.0e-21_f64, to_attogram),
+    (Femtogram,  1.0e-18_f64, to_femtogram),
+    (Picogram,   1.0e-15_f64, to_picogram),
+    (Nanogram,   1.0e-12_f64, to_nanogram),
+    (Microgram,  1.0e-9_f64, to_microgram),
+    (Milligram,  1.0e-6_f64, to_milligram),
+    (Centigram,  1.0e-5_f64, to_centigram),
+    (Decigram,   1.0e-4_f64, to_decigram),
 
-    (Decagram,   DECA  * 1.0e-3_f32, to_decagram),
-    (Hectogram,  HECTO * 1.0e-3_f32, to_hectogram),
-    (Megagram,   MEGA  * 1.0e-3_f32, to_megagram),
-    (Gigagram,   GIGA  * 1.0e-3_f32, to_gigagram),
-    (Teragram,   TERA  * 1.0e-3_f32, to_teragram),
-    (Petagram,   PETA  * 1.0e-3_f32, to_petagram),
-    (Exagram,    EXA   * 1.0e-3_f32, to_exagram),
-    (Zettagram,  ZETTA * 1.0e-3_f32, to_zettagram),
-    (Yottagram,  YOTTA * 1.0e-3_f32, to_yottagram),
+    (Decagram,   1.0e-2_f64, to_decagram),
+    (Hectogram,  1.0e-1_f64, to_hectogram),
+    (Megagram,   1.0e3_f64, to_megagram),
+    (Gigagram,   1.0e6_f64, to_gigagram),
+    (Teragram,   1.0e9_f64, to_teragram),
+    (Petagram,   1.0e12_f64, to_petagram),
+    (Exagram,    1.0e15_f64, to_exagram),
+    (Zettagram,  1.0e18_f64, to_zettagram),
+    (Yottagram,  1.0e21_f64, to_yottagram),
 }
-- 
2.43.0


From 2477b2282f7af472b1af53b5fde2e6c8d546519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 48/54] fix: orbit camera turns about the axes it says, and
 reports the angles it has

---
 crates/aether_graphics/src/cameras/orbit_camera.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/aether_graphics/src/cameras/orbit_camera.rs b/crates/aether_graphics/src/cameras/orbit_camera.rs
index ed4d51c..a81f8ea 100644
--- a/crates/aether_graphics/src/cameras/orbit_camera.rs
+++ b/crates/aether_graphics/src/cameras/orbit_camera.rs
@@ -57,9 +57,10 @@ impl<T: Real> OrbitCamera<T> {
         let world_up = Vector::new([T::ZERO, T::ZERO, T::ONE]);
         let q_yaw = CamQuat::<T>::from_axis_angle(world_up, yaw);
 
-        // Compute the post-yaw forward and right axis.
+        // Compute the post-yaw forward and right axis. `rotate_vec` is passive, so the
+        // conjugate turns the vector itself; a positive pitch looks up.
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        let fwd = q_yaw.rotate_vec(&base_forward).normalize();
+        let fwd = q_yaw.conjugate().rotate_vec(&base_forward).normalize();
         let mut right = world_up.cross(&fwd);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
@@ -67,7 +68,7 @@ impl<T: Real> OrbitCamera<T> {
         }
         right = right.normalize();
 
-        let q_pitch = CamQuat::<T>::from_axis_angle(right, pitch);
+        let q_pitch = CamQuat::<T>::from_axis_angle(right, -pitch);
         self.orientation = q_pitch.mul_hamilton_same(&q_yaw).normalized();
     }
 
@@ -90,14 +91,14 @@ impl<T: Real> OrbitCamera<T> {
         let tmp = q_yaw.mul_hamilton_same(&self.orientation).normalized();
 
         // 2) pitch about camera right after yaw
-        let fwd_tmp = tmp.rotate_vec(&base_forward).normalize();
+        let fwd_tmp = tmp.conjugate().rotate_vec(&base_forward).normalize();
         let mut right = world_up.cross(&fwd_tmp);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
             right = Vector::new([T::ONE, T::ZERO, T::ZERO]).cross(&fwd_tmp);
         }
         right = right.normalize();
-        let q_pitch = CamQuat::<T>::from_axis_angle(right, dpitch);
+        let q_pitch = CamQuat::<T>::from_axis_angle(right, -dpitch);
 
         self.orientation = q_pitch.mul_hamilton_same(&tmp).normalized();
 
@@ -142,7 +143,7 @@ impl<T: Real> OrbitCamera<T> {
     #[inline]
     pub fn forward(&self) -> Vector<T, 3> {
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        self.orientation.rotate_vec(&base_forward).normalize()
+        self.orientation.conjugate().rotate_vec(&base_forward).normalize()
     }
 
     #[inline]
-- 
2.43.0


From ea9fd3bafa5afa52dba5ca58cc63e1d4e2e4f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 49/54] fix: no_std f32 powi keeps exponents above 2^24 exact

---
 crates/aether_core/src/real/no_std_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_core/src/real/no_std_impl.rs b/crates/aether_core/src/real/no_std_impl.rs
index 97a8f93..160c5fe 100644
--- a/crates/aether_core/src/real/no_std_impl.rs
+++ b/crates/aether_core/src/real/no_std_impl.rs
@@ -38,7 +38,7 @@ impl Real for f32 {
     #[inline] fn ln(self) -> Self { libm::logf(self) }
     #[inline] fn log2(self) -> Self { libm::log2f(self) }
     #[inline] fn log10(self) -> Self { libm::log10f(self) }
-    #[inline] fn powi(self, n: i32) -> Self { libm::powf(self, n as f32) }
+    #[inline] fn powi(self, n: i32) -> Self { libm::pow(self as f64, n as f64) as f32 }
     #[inline] fn powf(self, n: Self) -> Self { libm::powf(self, n) }
     #[inline] fn to_degrees(self) -> Self { self * (180.0 / core::f32::consts::PI) }
     #[inline] fn to_radians(self) -> Self { self * (core::f32::consts::PI / 180.0) }
-- 
2.43.0


From 3fb823708dd2658a0e82bda1c51a6941ed044b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 50/54] fix: csv viewer names lines by the columns in use when
 a source lacks one

When set_y_columns failed for one source, every source had already switched to
the new columns but the labels stayed, so lines were drawn under other columns' names.
---
 crates/aether_viz/src/bin/csv_tail_egui.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/aether_viz/src/bin/csv_tail_egui.rs b/crates/aether_viz/src/bin/csv_tail_egui.rs
index 226d123..7e7a11a 100644
--- a/crates/aether_viz/src/bin/csv_tail_egui.rs
+++ b/crates/aether_viz/src/bin/csv_tail_egui.rs
@@ -424,9 +424,8 @@ impl CsvTailApp {
             }
         }
 
-        if err_msg.is_none() {
-            self.y_labels = new_cols;
-        }
+        // Every source has switched, also one that lacks a column
+        self.y_labels = new_cols;
         self.last_error = err_msg;
     }
 }
-- 
2.43.0


From ae8a2a55725faec88931a9b98f6994c05d69898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 51/54] fix: csv viewer ticks scalar columns given on the
 command line

They were plotted with their box unticked, and the first click on any other
box dropped them from the plot.
---
 crates/aether_viz/src/bin/csv_tail_egui.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_viz/src/bin/csv_tail_egui.rs b/crates/aether_viz/src/bin/csv_tail_egui.rs
index 7e7a11a..50f8307 100644
--- a/crates/aether_viz/src/bin/csv_tail_egui.rs
+++ b/crates/aether_viz/src/bin/csv_tail_egui.rs
@@ -85,7 +85,7 @@ fn main() -> Result<(), Box<dyn Error>> {
             .collect(),
         selected_y_map: y_columns
             .iter()
-            .filter(|c| classify_component(c) == Some(ComponentKind::Y))
+            .filter(|c| classify_component(c) != Some(ComponentKind::X))
             .cloned()
             .map(|c| (c, true))
             .collect(),
-- 
2.43.0


From 6c75130179e310c5c35fff047b4e793c796637ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 52/54] fix: csv viewer shows why a new source could not be
 loaded

The message was overwritten by the result of polling the other sources in the
same update, so it never appeared.
---
 crates/aether_viz/src/bin/csv_tail_egui.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aether_viz/src/bin/csv_tail_egui.rs b/crates/aether_viz/src/bin/csv_tail_egui.rs
index 50f8307..358a22d 100644
--- a/crates/aether_viz/src/bin/csv_tail_egui.rs
+++ b/crates/aether_viz/src/bin/csv_tail_egui.rs
@@ -141,11 +141,13 @@ struct CsvTailApp {
 impl eframe::App for CsvTailApp {
     fn update(&mut self, ctx: &egui::Context, _frame: &mut eframe::Frame) {
         if self.last_poll.elapsed() >= self.poll_interval {
+            let mut err_msg = None;
             if self.last_source_refresh.elapsed() >= self.source_refresh_interval {
+                self.last_error = None;
                 self.refresh_sources_from_pattern();
+                err_msg = self.last_error.take();
                 self.last_source_refresh = Instant::now();
             }
-            let mut err_msg = None;
             for source in &mut self.sources {
                 if let Err(err) = source.plotter.update_once() {
                     err_msg = Some(err.to_string());
-- 
2.43.0


From c63e5b4f7ca8fc2d2bb19cd7148461576e0c6ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:52 +0000
Subject: [PATCH 53/54] fix: Matrix::cast between f128 matrices rounded every
 element to f64

---
 crates/aether_core/src/math/matrix.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/aether_core/src/math/matrix.rs b/crates/aether_core/src/math/matrix.rs
index e243b7d..fbf1b02 100644
--- a/crates/aether_core/src/math/matrix.rs
+++ b/crates/aether_core/src/math/matrix.rs
@@ -1123,7 +1123,11 @@ impl<T: Real, const M: usize, const N: usize> Matrix<T, M, N> {
         let mut out = Matrix::<U, M, N>::zeros();
         for r in 0..M {
             for c in 0..N {
-                out[(r, c)] = U::from_f64(self[(r, c)].to_f64());
+                #[cfg(feature = "f128")]
+                let x = U::from_f128(self[(r, c)].to_f128());
+                #[cfg(not(feature = "f128"))]
+                let x = U::from_f64(self[(r, c)].to_f64());
+                out[(r, c)] = x;
             }
         }
         out
-- 
2.43.0


From 46f463af2157e0a5ddad5bda8cde0b6f4bd27a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:06 +0000
Subject: [PATCH 54/54] fix: csv_tail_egui: scale the second axis whatever the
 size of its values

---
 crates/aether_viz/src/bin/csv_tail_egui.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_viz/src/bin/csv_tail_egui.rs b/crates/aether_viz/src/bin/csv_tail_egui.rs
index 358a22d..192dfbb 100644
--- a/crates/aether_viz/src/bin/csv_tail_egui.rs
+++ b/crates/aether_viz/src/bin/csv_tail_egui.rs
@@ -520,7 +520,7 @@ fn min_max_for_columns_multi(
 
     if !min_v.is_finite() || !max_v.is_finite() {
         (0.0, 1.0)
-    } else if (max_v - min_v).abs() < f64::EPSILON {
+    } else if max_v == min_v {
         (min_v, min_v + 1.0)
     } else {
         (min_v, max_v)
@@ -528,7 +528,7 @@ fn min_max_for_columns_multi(
 }
 
 fn map_range(value: f64, src_min: f64, src_max: f64, dst_min: f64, dst_max: f64) -> f64 {
-    if (src_max - src_min).abs() < f64::EPSILON {
+    if src_max == src_min {
         return dst_min;
     }
     let t = (value - src_min) / (src_max - src_min);
-- 
2.43.0

