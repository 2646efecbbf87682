From 61d6f3e37c7df62ced552af8f285914d060f4dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:17 +0000
Subject: [PATCH 1/9] fix: process_block on an empty slice returns the last
 output instead of panicking

---
 src/traits.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/traits.rs b/src/traits.rs
index 9448140..8312de7 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -40,7 +40,10 @@ pub trait Processor<T: Float> {
     for sample in samples.iter_mut() {
       *sample = self.process(*sample);
     }
-    *samples.last().unwrap()
+    match samples.last() {
+      Some(sample) => *sample,
+      None => self.last_out()
+    }
   }
 
   /// Resets memory of all previous input and output to zero.
-- 
2.43.0


From c3d67f6a7b61dc5a5e9dc09f5d41ac3ce503cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:18 +0000
Subject: [PATCH 2/9] fix: clearing OneZero and TwoZero also resets the last
 output

---
 src/filter/one_zero.rs | 1 +
 src/filter/two_zero.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/filter/one_zero.rs b/src/filter/one_zero.rs
index 0e9dd3f..2d69777 100644
--- a/src/filter/one_zero.rs
+++ b/src/filter/one_zero.rs
@@ -61,6 +61,7 @@ impl<T> Processor<T> for OneZero<T> where T: Float {
 
   fn clear(&mut self) {
     self.x_z1 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
diff --git a/src/filter/two_zero.rs b/src/filter/two_zero.rs
index d9955a4..963503e 100644
--- a/src/filter/two_zero.rs
+++ b/src/filter/two_zero.rs
@@ -68,6 +68,7 @@ impl<T> Processor<T> for TwoZero<T> where T: Float {
   fn clear(&mut self) {
     self.x_z1 = num::zero();
     self.x_z2 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
-- 
2.43.0


From 34d57a90bf1944c914cfdc659b073330afa7a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 3/9] fix: LinearDelay recomputes the next output instead of
 caching a stale one

---
 src/delay/linear_delay.rs | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 689a243..3cd57f2 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -15,8 +15,6 @@ pub struct LinearDelay<T> {
   /// Delay time as a number of samples, which must be less than or equal to
   /// the size of the delay internal memory.
   delay: f32,
-  do_next_out: bool,
-  next_out: T,
   // Interpolation multiplers
   alpha: T,
   om_alpha: T
@@ -60,8 +58,6 @@ impl<T> LinearDelay<T> where T: Float {
         read_ptr: 0,
         write_ptr: 0,
         delay: 0f32,
-        do_next_out: true,
-        next_out: num::zero(),
         alpha: num::zero(),
         om_alpha: num::zero()
       };
@@ -119,22 +115,17 @@ impl<T> LinearDelay<T> where T: Float {
 
   /// Returns the value that will be output by the next call to `tick()`.
   pub fn next_out(&mut self) -> T {
-    if self.do_next_out {
-      // First half of interpolation
-      self.next_out = self.memory[self.read_ptr] * self.om_alpha;
-      // Second half
-      if self.read_ptr < self.memory.len() - 1 {
-        self.next_out = self.next_out
-                      + (self.memory[self.read_ptr + 1] * self.alpha);
-      }
-      else {
-        self.next_out = self.next_out + (self.memory[0] * self.alpha);
-      }
-
-      self.do_next_out = false
+    // First half of interpolation
+    let mut next_out = self.memory[self.read_ptr] * self.om_alpha;
+    // Second half
+    if self.read_ptr < self.memory.len() - 1 {
+      next_out = next_out + (self.memory[self.read_ptr + 1] * self.alpha);
+    }
+    else {
+      next_out = next_out + (self.memory[0] * self.alpha);
     }
 
-    return self.next_out;
+    next_out
   }
 }
 
@@ -147,7 +138,6 @@ impl<T> Processor<T> for LinearDelay<T> where T: Float {
 
     // interpolate
     self.output = self.next_out();
-    self.do_next_out = true;
 
     // increment read_ptr
     self.read_ptr += 1;
-- 
2.43.0


From 4772a65a06794c85a70a3475de65c02cef9f525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:21 +0000
Subject: [PATCH 4/9] fix: LinearDelay read position and fraction no longer
 depend on the write position

---
 src/delay/linear_delay.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 3cd57f2..01ec62c 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -90,21 +90,18 @@ impl<T> LinearDelay<T> where T: Float {
       delay_time = 0f32;
     }
 
-    let mut read_ptr_integer: f32 = self.write_ptr as f32 - delay_time;
     self.delay = delay_time;
 
-    while read_ptr_integer < 0f32 {
-      read_ptr_integer += self.memory.len() as f32;
-    }
-
-    // save integer part
-    self.read_ptr = read_ptr_integer as usize;
-    if self.read_ptr == self.memory.len() {
-      self.read_ptr = 0;
+    // integer part: the older of the two samples to interpolate
+    let whole_delay = delay_time.ceil();
+    let mut offset = whole_delay as usize;
+    if offset > self.memory.len() - 1 {
+      offset = self.memory.len() - 1;
     }
+    self.read_ptr = (self.write_ptr + self.memory.len() - offset) % self.memory.len();
 
     // save fractional part
-    self.alpha = num::cast(read_ptr_integer - self.read_ptr as f32).unwrap();
+    self.alpha = num::cast(whole_delay - delay_time).unwrap();
     self.om_alpha = T::one() - self.alpha;
   }
 
-- 
2.43.0


From 5b62633ea43bc7c4421b356b962015ee49ad4fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:22 +0000
Subject: [PATCH 5/9] fix: raising the maximum delay keeps every sample at its
 distance

---
 src/delay/linear_delay.rs |  9 ++++++++-
 src/delay/mod.rs          | 13 +++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 01ec62c..3485896 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -68,8 +68,15 @@ impl<T> LinearDelay<T> where T: Float {
 
   /// Set the maximum delay-line length, in samples.
   pub fn set_max_delay(&mut self, delay: usize) {
-    if delay < self.memory.len() { return; }
+    let old_len = self.memory.len();
+    if delay < old_len { return; }
     self.memory.resize(delay + 1, num::zero());
+
+    // move the oldest sample to the front so the new space follows the newest
+    self.memory[..old_len].rotate_left(self.write_ptr);
+    self.write_ptr = old_len;
+    let current_delay = self.delay;
+    self.set_delay(current_delay);
   }
 
   /// Returns the maximum delay-line length, in samples.
diff --git a/src/delay/mod.rs b/src/delay/mod.rs
index bca6508..ffb965c 100644
--- a/src/delay/mod.rs
+++ b/src/delay/mod.rs
@@ -63,10 +63,15 @@ impl<T> Delay<T> where T: Float {
 
   /// Set the maximum delay-line length, in samples.
   pub fn set_max_delay(&mut self, delay: usize) {
-    if delay < self.memory.len() { return; }
-    else {
-      self.memory.resize(delay + 1, num::zero());
-    }
+    let old_len = self.memory.len();
+    if delay < old_len { return; }
+    self.memory.resize(delay + 1, num::zero());
+
+    // move the oldest sample to the front so the new space follows the newest
+    self.memory[..old_len].rotate_left(self.write_ptr);
+    self.write_ptr = old_len;
+    let current_delay = self.delay;
+    self.set_delay(current_delay);
   }
 
   /// Returns the maximum delay-line length, in samples.
-- 
2.43.0


From 7120e20ab39294661de967a82b8e42ac86e0770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:23 +0000
Subject: [PATCH 6/9] fix: raising the maximum delay to usize::MAX no longer
 wraps to an empty line

---
 src/delay/linear_delay.rs | 3 ++-
 src/delay/mod.rs          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 3485896..91d118f 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -70,7 +70,8 @@ impl<T> LinearDelay<T> where T: Float {
   pub fn set_max_delay(&mut self, delay: usize) {
     let old_len = self.memory.len();
     if delay < old_len { return; }
-    self.memory.resize(delay + 1, num::zero());
+    let new_len = delay.checked_add(1).expect("maximum delay is too large");
+    self.memory.resize(new_len, num::zero());
 
     // move the oldest sample to the front so the new space follows the newest
     self.memory[..old_len].rotate_left(self.write_ptr);
diff --git a/src/delay/mod.rs b/src/delay/mod.rs
index ffb965c..7bc9a02 100644
--- a/src/delay/mod.rs
+++ b/src/delay/mod.rs
@@ -65,7 +65,8 @@ impl<T> Delay<T> where T: Float {
   pub fn set_max_delay(&mut self, delay: usize) {
     let old_len = self.memory.len();
     if delay < old_len { return; }
-    self.memory.resize(delay + 1, num::zero());
+    let new_len = delay.checked_add(1).expect("maximum delay is too large");
+    self.memory.resize(new_len, num::zero());
 
     // move the oldest sample to the front so the new space follows the newest
     self.memory[..old_len].rotate_left(self.write_ptr);
-- 
2.43.0


From af80a5e778cc83bd79f890857188b0c793776892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:25 +0000
Subject: [PATCH 7/9] fix: window iterators report the number of points that
 remain

---
 src/window/bartlett.rs        | 7 ++++++-
 src/window/blackman.rs        | 7 ++++++-
 src/window/blackman_harris.rs | 7 ++++++-
 src/window/hamming.rs         | 7 ++++++-
 src/window/hann.rs            | 7 ++++++-
 src/window/triangular.rs      | 7 ++++++-
 6 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index c3d456a..a49ab09 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -46,11 +46,16 @@ impl<T> Iterator for BartlettIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BartlettIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index aef628d..907a015 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -49,11 +49,16 @@ impl<T> Iterator for BlackmanIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index 161d932..85f2102 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -51,11 +51,16 @@ impl<T> Iterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index fc568e2..f2db06c 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -47,11 +47,16 @@ impl<T> Iterator for HammingIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for HammingIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hann.rs b/src/window/hann.rs
index eca348e..cb81967 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -46,11 +46,16 @@ impl<T> Iterator for HannIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for HannIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/triangular.rs b/src/window/triangular.rs
index f646116..76fe6f6 100644
--- a/src/window/triangular.rs
+++ b/src/window/triangular.rs
@@ -48,11 +48,16 @@ impl<T> Iterator for TriangularIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for TriangularIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
-- 
2.43.0


From 5b4644a306ee36d7f69507435d9d5d8fc329870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 8/9] fix: one-sample windows are one instead of NaN

---
 src/window/bartlett.rs        | 3 +++
 src/window/blackman.rs        | 3 +++
 src/window/blackman_harris.rs | 3 +++
 src/window/hamming.rs         | 3 +++
 src/window/hann.rs            | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index a49ab09..55232fb 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -21,6 +21,9 @@ impl<T> BartlettIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // a window of one sample has no ends to taper
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index 907a015..7c2f555 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -23,6 +23,9 @@ impl<T> BlackmanIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // a window of one sample has no ends to taper
+    if self.size == 1 { return T::one(); }
+
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
     let size_minus_one : T = num::cast(self.size - 1).unwrap();
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index 85f2102..34680bd 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -23,6 +23,9 @@ impl<T> BlackmanHarrisIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // a window of one sample has no ends to taper
+    if self.size == 1 { return T::one(); }
+
     let two            : T = T::two();
     let three          : T = num::cast(3f64).unwrap();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index f2db06c..7331048 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -21,6 +21,9 @@ impl<T> HammingIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // a window of one sample has no ends to taper
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hann.rs b/src/window/hann.rs
index cb81967..258a046 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -21,6 +21,9 @@ impl<T> HannIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // a window of one sample has no ends to taper
+    if self.size == 1 { return T::one(); }
+
     let one : T = T::one();
     let two : T = T::two();
     let half: T = num::cast(0.5f64).unwrap();
-- 
2.43.0


From 0360f784999d909eeb49504b2ca2669fa8ae6bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:23 +0000
Subject: [PATCH 9/9] fix: Delay and LinearDelay of the largest maximum no
 longer come out empty

In a release build new(_, usize::MAX) wrapped max_delay + 1 to zero and
returned a line without memory that panicked at its first use. Refuse the
size at construction instead, as set_max_delay does.
---
 src/delay/linear_delay.rs | 3 ++-
 src/delay/mod.rs          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 91d118f..47fcc44 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -51,9 +51,10 @@ impl<T> LinearDelay<T> where T: Float {
       delay_time = 0f32;
     }
 
+    let len = max_delay.checked_add(1).expect("maximum delay is too large");
     let mut delay_line =
       LinearDelay {
-        memory: vec![num::zero(); max_delay + 1],
+        memory: vec![num::zero(); len],
         output: num::zero(),
         read_ptr: 0,
         write_ptr: 0,
diff --git a/src/delay/mod.rs b/src/delay/mod.rs
index 7bc9a02..7cc827c 100644
--- a/src/delay/mod.rs
+++ b/src/delay/mod.rs
@@ -48,9 +48,10 @@ impl<T> Delay<T> where T: Float {
       delay_time = max_delay;
     }
 
+    let len = max_delay.checked_add(1).expect("maximum delay is too large");
     let mut delay_line =
       Delay {
-        memory: vec![num::zero(); max_delay + 1],
+        memory: vec![num::zero(); len],
         output: num::zero(),
         read_ptr: 0,
         write_ptr: 0,
-- 
2.43.0

