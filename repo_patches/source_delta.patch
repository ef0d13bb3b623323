From 7000a4d362b48d3142211d68cea1fc5bc5677982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 01/30] fix: Mono - Mono subtracts instead of adding

---
 src/sample_format/mono.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/mono.rs b/src/sample_format/mono.rs
index a473592..83a0903 100644
--- a/src/sample_format/mono.rs
+++ b/src/sample_format/mono.rs
@@ -86,7 +86,7 @@ impl Sub<Mono> for Mono {
 
     fn sub(self, rhs: Mono) -> Self {
         Mono {
-            mono: self.mono + rhs.mono
+            mono: self.mono - rhs.mono
         }
     }
 }
-- 
2.43.0


From 76be794f33e845f7a3d167e17c3d0031cfd5a23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 02/30] fix: Stereo::into_sample inverts Stereo::from_sample
 instead of doubling the level

---
 src/sample_format/stereo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index 65eb571..a0478a3 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -50,7 +50,7 @@ impl SampleFormat for Stereo
     }
 
     fn into_sample(self) -> SampleT {
-        (self.left + self.right)/SampleT::sqrt(0.5)
+        (self.left + self.right) * SampleT::sqrt(0.5)
     }
 
     fn num_samples() -> usize {
-- 
2.43.0


From f07e7b94d05322fdd69f541f12fd5b13b028371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 03/30] fix: Stereo *= MathT multiplies in MathT like Stereo *
 MathT does

---
 src/sample_format/stereo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index a0478a3..d1bee10 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -192,8 +192,8 @@ impl std::ops::Mul<MathT> for Stereo {
 }
 impl std::ops::MulAssign<MathT> for Stereo {
     fn mul_assign(&mut self, rhs: MathT) {
-        self.left *= rhs as SampleT;
-        self.right *= rhs as SampleT;
+        self.left = (self.left as MathT * rhs) as SampleT;
+        self.right = (self.right as MathT * rhs) as SampleT;
     }
 }
 
-- 
2.43.0


From a88b5600efe56a08ac09318c42b3ea2acc840300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 04/30] fix: Stereo panning moves the signal toward the
 requested side

---
 src/sample_format/stereo.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index d1bee10..e54e7e8 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -65,14 +65,14 @@ impl SampleFormat for Stereo
 impl Panner<f32> for Stereo {
     fn to_sample_format(s: SampleT, g: f32) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
@@ -84,14 +84,14 @@ impl Panner<f32> for Stereo {
 impl Panner<f64> for Stereo {
     fn to_sample_format(s: SampleT, g: f64) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
-- 
2.43.0


From 8ac87fbb4770e70680c03f093a2c01efbddfe406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 05/30] fix: sign-extend 24-bit samples, so negative ones
 survive a round trip

---
 src/sample_format/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/mod.rs b/src/sample_format/mod.rs
index abd2375..51366ab 100644
--- a/src/sample_format/mod.rs
+++ b/src/sample_format/mod.rs
@@ -136,11 +136,12 @@ pub fn sample_to_i16_bytes(s: SampleT) -> [u8; 2] {
 
 /// Converts an i32 24-bit sample to a `SampleT`.
 pub fn sample_from_i24(v: i32) -> SampleT {
-    v as SampleT / ((1 << 23) as SampleT - 1.0)
+    // The upper byte is ignored, the sign is that of the lower 24 bits.
+    ((v << 8) >> 8) as SampleT / ((1 << 23) as SampleT - 1.0)
 }
 /// Converts raw bytes to a `SampleT`.
 pub fn sample_from_i24_bytes(v:[u8;3]) -> SampleT {
-    (i32::from_le_bytes([v[0],v[1],v[2],0]) as SampleT) / ((1 << 23) as SampleT - 1.0)
+    sample_from_i24(i32::from_le_bytes([v[0],v[1],v[2],0]))
 }
 
 /// Converts a `SampleT` to an `i24`.
-- 
2.43.0


From 0608aadd760a23c59090a87e0ec99ecce5a80e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 06/30] fix: samples_to_seconds divides by the sampling rate

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6b6ea99..6ce7fa5 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -43,7 +43,7 @@ pub fn clerp<T>(x:T, x1:T, x2:T, y1:T, y2:T) -> T
 
 /// Converts a given sample count to seconds.
 pub fn samples_to_seconds(s: usize) -> std::time::Duration {
-    std::time::Duration::from_secs_f64(s as f64 * SAMPLE_RATE as f64)
+    std::time::Duration::from_secs_f64(s as f64 / SAMPLE_RATE as f64)
 }
 
 /// Converts the given duration to samples, rounded to the nearest sample.
-- 
2.43.0


From 43dee930b2c2d8b2cec89a5e265e3c6493dda21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 07/30] fix: normalizing a silent track leaves it silent
 instead of filling it with NaN

---
 src/utils/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6ce7fa5..9274d3f 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -81,7 +81,12 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
         }
     }
 
-    let factor = db_to_linear(db) as SampleT / max;
+    // A silent track has no peak to scale to, and stays silent.
+    let factor = if max > 0.0 {
+        db_to_linear(db) as SampleT / max
+    } else {
+        0.0
+    };
 
     for s in t {
         *s = (*s - dc) * factor;
-- 
2.43.0


From 91452a8ed301161f225371500c7c205c3183f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 08/30] fix: a cloned Delay or Echo keeps the delay of the
 original

---
 src/modifiers/delay.rs | 2 +-
 src/modifiers/echo.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/delay.rs b/src/modifiers/delay.rs
index 70ff81d..9ad1228 100644
--- a/src/modifiers/delay.rs
+++ b/src/modifiers/delay.rs
@@ -45,7 +45,7 @@ impl Clone for Delay {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..(self.delay.len()) {
                     v.push_back(SampleT::default());
                 }
 
diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index cfba8e0..e8357c6 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -43,7 +43,7 @@ impl Clone for Echo {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..(self.delay.len()) {
                     v.push_back(SampleT::default());
                 }
 
-- 
2.43.0


From 2de6b2b13b32e24529de209782a92dbe12283759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 09/30] fix: Echo rounds its delay to the nearest sample and no
 longer panics on a delay below one sample

---
 src/modifiers/echo.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index e8357c6..1415efa 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -12,12 +12,13 @@ pub struct Echo {
 
 impl Echo {
     /// Creates a new ['Echo'] object with the given delay duration and feedback
-    /// amount.
+    /// amount. The delay is rounded to the nearest sample, with a minimum of
+    /// one sample.
     /// 
     /// [`Echo`]: struct.Echo.html
     pub fn new(d: Duration, g: MathT) -> Self{
         let mut v = VecDeque::new();
-        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT) as usize) {
+        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT).round() as usize).max(1) {
             v.push_back(SampleT::default());
         }
 
-- 
2.43.0


From f8a219a6f7960abb10af351821131f755d42e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 10/30] fix: Triangle keeps its slope direction apart from its
 frequency

---
 src/generators/triangle.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/generators/triangle.rs b/src/generators/triangle.rs
index ecc58d4..24259eb 100644
--- a/src/generators/triangle.rs
+++ b/src/generators/triangle.rs
@@ -8,6 +8,7 @@ use super::*;
 pub struct Triangle {
     irate: MathT,
     inc: MathT,
+    dir: MathT,
 }
 
 impl FreqMod for Triangle {
@@ -15,6 +16,7 @@ impl FreqMod for Triangle {
         Triangle {
             irate: 4.0 * f * INV_SAMPLE_RATE,
             inc: 0.0,
+            dir: 1.0,
         }
     }
 
@@ -31,10 +33,10 @@ impl Generator for Triangle {
     fn process(&mut self) -> SampleT {
         let y = self.inc;
 
-        self.inc += self.irate;
+        self.inc += self.irate * self.dir;
 
         if self.inc >= 1.0 || self.inc <= -1.0 {
-            self.irate = -self.irate;
+            self.dir = -self.dir;
 
             self.inc = if self.inc >= 1.0 {
                 2.0 - self.inc
@@ -51,7 +53,8 @@ impl Clone for Triangle {
     fn clone(&self) -> Self {
         Triangle {
             irate: self.irate,
-            inc: 0.0
+            inc: 0.0,
+            dir: 1.0,
         }
     }
 }
-- 
2.43.0


From c7db04650027f7127cc08c5bc95bd7e1f99621b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 11/30] fix: Sine interpolates the last wavetable interval
 instead of flattening it

---
 src/generators/sine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generators/sine.rs b/src/generators/sine.rs
index 06121c7..542dbcf 100644
--- a/src/generators/sine.rs
+++ b/src/generators/sine.rs
@@ -59,7 +59,7 @@ impl Generator for Sine {
 
         self.ind += self.inc;
 
-        if self.ind >= (WAVETABLE_SIZE as MathT)-1.0 {
+        if self.ind >= WAVETABLE_SIZE as MathT {
             self.ind -= WAVETABLE_SIZE as MathT;
         }
 
-- 
2.43.0


From e01dc17439f21905b7932c44eed3b09b793dce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 12/30] fix: Generic sizes its histories by the largest index,
 in whatever order the terms are given

---
 src/modifiers/generic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/generic.rs b/src/modifiers/generic.rs
index 87d4e8d..1162f12 100644
--- a/src/modifiers/generic.rs
+++ b/src/modifiers/generic.rs
@@ -29,12 +29,12 @@ pub struct Generic {
 impl Generic {
     /// Creates a new Generic filter from the given pole and zero parameters.
     pub fn new(zeros: Zeros, poles: Poles) -> Generic {
-        let z_back = if let Some(z) = zeros.back() {
+        let z_back = if let Some(z) = zeros.iter().max_by_key(|z| z.0) {
             z.0 + 1
         } else {
             0
         };
-        let p_back = if let Some(p) = poles.back() {
+        let p_back = if let Some(p) = poles.iter().max_by_key(|p| p.0) {
             p.0 + 1
         } else {
             0
-- 
2.43.0


From 6cbe49ee7dce761e498b5416652e2222f6e04af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 13/30] fix: normalize sums the DC offset in MathT, so rounding
 residue is not amplified

---
 src/utils/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 9274d3f..52ab882 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -65,13 +65,13 @@ pub fn db_to_linear(db: MathT) -> MathT {
 /// value.
 pub fn normalize(db: MathT, t: &mut SampleTrackT) {
     let y = t.clone();
-    let mut dc = 0.0;
+    let mut dc: MathT = 0.0;
 
     for s in &y {
-        dc += s;
+        dc += *s as MathT;
     }
 
-    dc /= y.len() as SampleT;
+    let dc = (dc / y.len() as MathT) as SampleT;
 
     let mut max = 0.0;
 
-- 
2.43.0


From 7145ebb4ae1df4096f6ec5d2f8c6902e6a783353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 14/30] fix: Square keeps its phase when its frequency changes
 instead of sticking high

---
 src/generators/square.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/generators/square.rs b/src/generators/square.rs
index 7a6ad93..0e7e530 100644
--- a/src/generators/square.rs
+++ b/src/generators/square.rs
@@ -19,7 +19,15 @@ impl FreqMod for Square {
     }
 
     fn set_frequency(&mut self, f: MathT) {
-        self.inv = SAMPLE_RATE as MathT/(2.0 * f);
+        let inv = SAMPLE_RATE as MathT/(2.0 * f);
+
+        // Keep the position within the period.
+        self.ind = if inv.is_finite() {
+            self.ind * (inv / self.inv)
+        } else {
+            0.0
+        };
+        self.inv = inv;
     }
 
     fn get_frequency(&self) -> MathT {
-- 
2.43.0


From f2d8b15d3d85fabb7ffd2b821cd261f283672995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 15/30] fix: ADSR with no decay time and a sustain level of 0dB
 no longer outputs NaN

---
 src/modifiers/adsr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index a94f6dd..17ec188 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -43,7 +43,7 @@ impl ADSR {
         let s = s.min(0.0);
         ADSR {
             a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT) as SampleT,
-            d: ((db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
+            d: ((db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT).max(1.0)) as SampleT,
             s: db_to_linear(s) as SampleT,
             r: ((-db_to_linear(s))/(r.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
             state: ADSRState::Attack,
-- 
2.43.0


From 9cb90a08ec9b82fab611da2671d53f3c7cf8dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 16/30] fix: ADSR releases within its release time from any
 stage and sustain level

---
 src/modifiers/adsr.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index 17ec188..86b04f2 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -26,6 +26,7 @@ pub struct ADSR {
     d:SampleT,
     s:SampleT,
     r:SampleT,
+    r_slope:SampleT,
     state:ADSRState,
     g:SampleT,
 }
@@ -45,7 +46,8 @@ impl ADSR {
             a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT) as SampleT,
             d: ((db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT).max(1.0)) as SampleT,
             s: db_to_linear(s) as SampleT,
-            r: ((-db_to_linear(s))/(r.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
+            r: (r.as_secs_f64() * SAMPLE_RATE as MathT).max(1.0) as SampleT,
+            r_slope: 0.0,
             state: ADSRState::Attack,
             g: 0.0
         }
@@ -53,7 +55,14 @@ impl ADSR {
 
     /// Changes adsr state to release
     pub fn release(&mut self) {
-        self.state = ADSRState::Release;
+        match self.state {
+            ADSRState::Release | ADSRState::Stopped => (),
+            _ => {
+                // The release takes its time from whatever the gain is now.
+                self.r_slope = -self.g / self.r;
+                self.state = ADSRState::Release;
+            },
+        }
     }
 }
 
@@ -77,7 +86,7 @@ impl Modifier for ADSR {
             ADSRState::Sustain => {
             },
             ADSRState::Release => {
-                self.g += self.r;
+                self.g += self.r_slope;
                 if self.g <= 0.0 {
                     self.state = ADSRState::Stopped;
                     self.g = 0.0;
@@ -97,6 +106,7 @@ impl Clone for ADSR {
             d: self.d,
             s: self.s,
             r: self.r,
+            r_slope: 0.0,
             state: ADSRState::Attack,
             g: 0.0
         }
-- 
2.43.0


From c63215860837115b70260fd0e1f05485ae42246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 17/30] fix: MonoResampler tracks its position in MathT, so
 long tracks play to their end

---
 src/utils/mono_resampler.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 39b9759..1bde2a0 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -7,14 +7,14 @@ use super::*;
 use sample_format::{SampleFormat, MonoTrackT};
 
 /// Type used for fractional indexing.
-type IndexT = SampleT;
+type IndexT = MathT;
 
 /// Struct tracking all of the data required for resampling, with some extra
 /// features like playback speed and looping.
 pub struct MonoResampler {
     data: MonoTrackT,
     ind: IndexT,
-    inc: SampleT,
+    inc: MathT,
     speed: MathT,
     loop_start: usize,
     loop_end: usize,
@@ -39,7 +39,7 @@ impl MonoResampler {
         MonoResampler {
             data,
             ind: 0.0,
-            inc: (source_sample_rate as MathT * INV_SAMPLE_RATE) as SampleT,
+            inc: source_sample_rate * INV_SAMPLE_RATE,
             speed: 1.0,
             loop_start,
             loop_end,
@@ -75,7 +75,7 @@ impl MonoResampler {
 
         let y = x1 + self.ind.fract() as SampleT * (x2 - x1);
 
-        self.ind += self.inc * self.speed as SampleT;
+        self.ind += self.inc * self.speed;
 
         if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
             self.ind -= (self.loop_end - self.loop_start) as IndexT;
-- 
2.43.0


From 7e023fff749b50026f9f66a6e54b7f815d2aac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 18/30] fix: MonoResampler stays within its loop and
 interpolates across the loop point

---
 src/utils/mono_resampler.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 1bde2a0..3ead9b7 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -30,12 +30,21 @@ impl MonoResampler {
     /// * `loop_start` - The start point of looping.
     /// * `loop_end` - The end point of looping. If this value is 0, no looping is assumed.
     /// 
-    /// If `loop_end` is less than `loop_start`, they are swapped.
+    /// If `loop_end` is less than `loop_start`, they are swapped. If `loop_end`
+    /// is past the end of the track, the track loops at its end. A loop that
+    /// contains no samples is no looping.
     pub fn new(data:MonoTrackT, source_sample_rate: MathT, mut loop_start: usize, mut loop_end: usize) -> Self {
         if loop_end < loop_start {
             std::mem::swap(&mut loop_start, &mut loop_end);
         }
 
+        loop_end = loop_end.min(data.len());
+
+        if loop_start >= loop_end {
+            loop_start = 0;
+            loop_end = 0;
+        }
+
         MonoResampler {
             data,
             ind: 0.0,
@@ -62,8 +71,8 @@ impl MonoResampler {
             return SampleT::default();
         }
 
-        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.data.len() && self.loop_end != 0 {
-            self.data[(self.ind - (self.loop_end - self.loop_start) as IndexT) as usize].into_sample()
+        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.loop_end && self.loop_end != 0 {
+            self.data[self.loop_start].into_sample()
         } else if self.ind.trunc() as usize + 1 >= self.data.len() {
             self.data[self.ind.trunc() as usize].into_sample()
         } else {
@@ -78,7 +87,9 @@ impl MonoResampler {
         self.ind += self.inc * self.speed;
 
         if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
-            self.ind -= (self.loop_end - self.loop_start) as IndexT;
+            let start = self.loop_start as IndexT;
+
+            self.ind = start + (self.ind - start) % (self.loop_end - self.loop_start) as IndexT;
         }
 
         y
-- 
2.43.0


From 5dec3a952aa1d393ea79ea81b2045d872e6dfccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 19/30] fix: write_wav writes everything to destinations that
 accept partial writes, or fails

---
 src/utils/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 52ab882..63a323b 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -202,6 +202,8 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
         }
     }
 
+    let mut buf = Vec::new();
+
     match bps {
         8 => {
             let mut v = Vec::new();
@@ -215,7 +217,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Eight(v),
-                d
+                &mut buf
             )?;
         },
         16 => {
@@ -230,7 +232,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Sixteen(v),
-                d
+                &mut buf
             )?;
         },
         24 => {
@@ -245,11 +247,12 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::TwentyFour(v),
-                d
+                &mut buf
             )?;
         },
         _ => return Err(Error::new(ErrorKind::Other, "Unsupported bit depth, aborting.")),
     }
 
-    Ok(())
+    // `wav::write_wav` drops whatever the destination doesn't accept at once.
+    d.write_all(&buf)
 }
-- 
2.43.0


From a36c8cfa90e70fb32e97890a267a34bbcca90202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 20/30] fix: StandardChannel::process produces the samples of
 its process time

---
 src/channels/standard_channel.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 0b0a1dd..0246270 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -14,6 +14,7 @@ pub struct StandardChannel<SF>
     where SF: SampleFormat
 {
     output: Vec<SF>,
+    length: usize,
     sounds: HashMap<usize, SoundSP>,
     gain: SampleT,
     id_counter: usize
@@ -31,6 +32,7 @@ impl<SF> StandardChannel<SF>
     pub fn new(gain: MathT) -> Self {
         StandardChannel {
             output: Vec::with_capacity((0.01 * SAMPLE_RATE as MathT) as usize),
+            length: (0.01 * SAMPLE_RATE as MathT) as usize,
             sounds: HashMap::new(),
             gain: gain as SampleT,
             id_counter: 0
@@ -50,7 +52,8 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     where SF: SampleFormat
 {
     fn set_process_time(&mut self, d: Duration) {
-        self.output = Vec::with_capacity((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize);
+        self.length = (d.as_nanos() * SAMPLE_RATE as u128 / 1_000_000_000) as usize;
+        self.output = Vec::with_capacity(self.length);
     }
 
     fn get_output(&self) -> &Vec<SF> {
@@ -62,7 +65,8 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     }
 
     fn process(&mut self) {
-        self.output.resize_with(self.output.len(), SF::default);
+        self.output.clear();
+        self.output.resize_with(self.length, SF::default);
 
         for sample in &mut self.output {
             for mut sound in &mut self.sounds {
-- 
2.43.0


From 9d35019102b119bf2a2350824b4c7f6fc22caade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 21/30] fix: StandardChannel::remove_sound unregisters the
 removed sound

---
 src/channels/standard_channel.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 0246270..064322e 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -84,6 +84,10 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     }
 
     fn remove_sound(&mut self, id: usize) {
-        self.sounds.remove(&id);
+        if let Some(mut sound) = self.sounds.remove(&id) {
+            if let Some(sound) = SoundSP::get_mut(&mut sound) {
+                sound.unregister();
+            }
+        }
     }
 }
-- 
2.43.0


From 61ad1e493c52cd9197dc9ad293324ab3d626f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:41 +0000
Subject: [PATCH 22/30] fix: ComplexSound processes every block after the
 blocks feeding it

---
 src/sounds/complex_sound.rs | 45 +++++++++++++------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index 312cd87..6c98f09 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -11,6 +11,7 @@ use super::*;
 use std::sync::Arc;
 use std::collections::VecDeque;
 use petgraph::graph;
+use petgraph::visit::{DfsPostOrder, EdgeFiltered, EdgeRef};
 
 /// Alias for the graph type used by [`ComplexSound`].
 /// 
@@ -132,50 +133,34 @@ impl ComplexSound {
     }
 
     /// Processes the graph and constructs the order to process the
-    /// [`GraphNode`]s.
+    /// [`GraphNode`]s, such that nodes come after those connected to them unless
+    /// they're part of a cycle.
     /// 
     /// [`GraphNode`]: type.GraphNode.html
     fn process_order(&mut self) {
         self.process_order.clear();
 
-        self.process_order.extend(self.graph.externals(petgraph::Direction::Incoming));
-        let mut i = 0;
-        while i < self.process_order.len() {
-            let neighbors = self.graph.neighbors(self.process_order[i]);
-            self.process_order.extend(neighbors);
+        let ig = self.input_gain;
+        let og = self.output_gain;
 
-            let mut j = 0;
-            while j < i {
-                Self::remove_dups(&mut self.process_order, j);
-                j += 1;
-            }
+        // The input and output gains are always first and last, so connections
+        // to the former or from the latter are feedback.
+        let graph = EdgeFiltered::from_fn(&self.graph, |e| e.target() != ig && e.source() != og);
+        let mut dfs = DfsPostOrder::empty(&graph);
 
-            i += 1;
-        }
+        for n in self.graph.node_indices() {
+            dfs.move_to(n);
 
-        let ig = self.input_gain;
-        let og = self.output_gain;
+            while let Some(n) = dfs.next(&graph) {
+                self.process_order.push_front(n);
+            }
+        }
 
         self.process_order.retain(|e| *e != ig && *e != og);
 
         self.process_order.push_front(self.input_gain);
         self.process_order.push_back(self.output_gain);
     }
-
-    /// Removes duplicate [`GraphNode`]s from the process order to prevent parsing cycles
-    /// 
-    /// [`GraphNode`]: type.GraphNode.html
-    fn remove_dups(v: &mut ProcessOrder, whitelist: usize) {
-        let mut i = whitelist + 1;
-
-        while i < v.len() {
-            if v[i] == v[whitelist] {
-                v.remove(i);
-            } else {
-                i += 1;
-            }
-        }
-    }
 }
 
 impl Sound for ComplexSound {
-- 
2.43.0


From 3772525c88282d46bda9759ca1ac03013bd458cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:41 +0000
Subject: [PATCH 23/30] fix: ComplexSound processes all of its blocks before
 any connection is made

---
 src/sounds/complex_sound.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index 6c98f09..008d62c 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -67,7 +67,7 @@ impl ComplexSound {
             )
         );
 
-        ComplexSound {
+        let mut sound = ComplexSound {
             graph,
             process_order: ProcessOrder::new(),
             input_gain,
@@ -75,7 +75,11 @@ impl ComplexSound {
             id: None,
             is_muted: false,
             is_paused: false
-        }
+        };
+
+        sound.process_order();
+
+        sound
     }
 
     /// Returns the ['GraphNode'] containing the input gain [`Modifier`].
@@ -103,7 +107,11 @@ impl ComplexSound {
     /// [`add_connection]: struct.ComplexSound.html#method.add_connection
     /// [`remove_connection]: struct.ComplexSound.html#method.remove_connection
     pub fn add_block(&mut self, block: BlockSP) -> GraphNode {
-        self.graph.add_node(block)
+        let node = self.graph.add_node(block);
+
+        self.process_order();
+
+        node
     }
 
     /// Adds a new connection (edge) between the two given [`GraphNode`]s.
-- 
2.43.0


From 949e110cdb613e5c993039de461504780e628390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:11 +0000
Subject: [PATCH 24/30] fix: LowPass and HighPass filter in MathT, so low
 cutoffs are stable

---
 src/modifiers/highpass.rs | 65 ++++++++++++++++++++-------------------
 src/modifiers/lowpass.rs  | 20 ++++++------
 2 files changed, 43 insertions(+), 42 deletions(-)

diff --git a/src/modifiers/highpass.rs b/src/modifiers/highpass.rs
index 599ffcb..2e971c9 100644
--- a/src/modifiers/highpass.rs
+++ b/src/modifiers/highpass.rs
@@ -8,20 +8,20 @@ use super::*;
 /// High pass filter adapted from the 3rd Order Butterworth Low Pass Filter with
 /// resonance.
 pub struct HighPass {
-    a0: SampleT,
-    a1: SampleT,
-    a2: SampleT,
-    a3: SampleT,
-    b1: SampleT,
-    b2: SampleT,
-    b3: SampleT,
+    a0: MathT,
+    a1: MathT,
+    a2: MathT,
+    a3: MathT,
+    b1: MathT,
+    b2: MathT,
+    b3: MathT,
 
     x1: SampleT,
     x2: SampleT,
     x3: SampleT,
-    y1: SampleT,
-    y2: SampleT,
-    y3: SampleT,
+    y1: MathT,
+    y2: MathT,
+    y3: MathT,
 
     fc: MathT,
     r: MathT
@@ -40,19 +40,19 @@ impl HighPass {
         let fc = fc.min(SAMPLE_RATE as MathT / 2.0);
         let r = r.min(1.0).max(0.0);
         let mut hp = HighPass {
-            a0: SampleT::default(),
-            a1: SampleT::default(),
-            a2: SampleT::default(),
-            a3: SampleT::default(),
-            b1: SampleT::default(),
-            b2: SampleT::default(),
-            b3: SampleT::default(),
+            a0: MathT::default(),
+            a1: MathT::default(),
+            a2: MathT::default(),
+            a3: MathT::default(),
+            b1: MathT::default(),
+            b2: MathT::default(),
+            b3: MathT::default(),
             x1: SampleT::default(),
             x2: SampleT::default(),
             x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc,
             r,
         };
@@ -95,20 +95,21 @@ impl HighPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.a0 = ( 1.0/g) as SampleT;
-        self.a1 = (-3.0/g) as SampleT;
-        self.a2 = ( 3.0/g) as SampleT;
-        self.a3 = (-1.0/g) as SampleT;
+        self.a0 = 1.0/g;
+        self.a1 = -3.0/g;
+        self.a2 = 3.0/g;
+        self.a3 = -1.0/g;
 
-        self.b1 = ((k*t.powf(2.0) + 2.0*k*t + 3.0)/g) as SampleT;
-        self.b2 = ((-k*t - 3.0)/g) as SampleT;
-        self.b3 = (1.0/g) as SampleT;
+        self.b1 = (k*t.powf(2.0) + 2.0*k*t + 3.0)/g;
+        self.b2 = (-k*t - 3.0)/g;
+        self.b3 = 1.0/g;
     }
 }
 
 impl Modifier for HighPass {
     fn process(&mut self, x: SampleT) -> SampleT {
-        let y = self.a0*x + self.a1*self.x1 + self.a2*self.x2 + self.a3*self.x3 +
+        let y = self.a0*x as MathT + self.a1*self.x1 as MathT +
+            self.a2*self.x2 as MathT + self.a3*self.x3 as MathT +
             self.b1*self.y1 + self.b2*self.y2 + self.b3*self.y3;
 
         self.x3 = self.x2;
@@ -118,7 +119,7 @@ impl Modifier for HighPass {
         self.y2 = self.y1;
         self.y1 = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -135,9 +136,9 @@ impl Clone for HighPass {
             x1: SampleT::default(),
             x2: SampleT::default(),
             x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc: self.fc,
             r: self.r,
         }
diff --git a/src/modifiers/lowpass.rs b/src/modifiers/lowpass.rs
index 3810279..44cf4f8 100644
--- a/src/modifiers/lowpass.rs
+++ b/src/modifiers/lowpass.rs
@@ -9,8 +9,8 @@ use super::*;
 pub struct LowPass {
     fc: MathT,
     r: MathT,
-    coeff: [SampleT; 4],
-    outs: [SampleT; 3]
+    coeff: [MathT; 4],
+    outs: [MathT; 3]
 }
 
 impl LowPass {
@@ -30,7 +30,7 @@ impl LowPass {
             fc,
             r,
             coeff: [0.0; 4],
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         };
 
         lp.reset();
@@ -71,16 +71,16 @@ impl LowPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.coeff[0] = (t.powf(3.0) / g) as SampleT;
-        self.coeff[1] = ((k*t.powf(2.0) + 2.0*k*t + 3.0) / g) as SampleT;
-        self.coeff[2] = ((-k*t - 3.0) / g) as SampleT;
-        self.coeff[3] = (1.0 / g) as SampleT;
+        self.coeff[0] = t.powf(3.0) / g;
+        self.coeff[1] = (k*t.powf(2.0) + 2.0*k*t + 3.0) / g;
+        self.coeff[2] = (-k*t - 3.0) / g;
+        self.coeff[3] = 1.0 / g;
     }
 }
 
 impl Modifier for LowPass {
     fn process(&mut self, x: SampleT) -> SampleT {
-        let y = self.coeff[0]*x +
+        let y = self.coeff[0]*x as MathT +
                 self.coeff[1]*self.outs[0] +
                 self.coeff[2]*self.outs[1] +
                 self.coeff[3]*self.outs[2];
@@ -89,7 +89,7 @@ impl Modifier for LowPass {
         self.outs[1] = self.outs[0];
         self.outs[0] = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -99,7 +99,7 @@ impl Clone for LowPass {
             fc: self.fc,
             r: self.r,
             coeff: self.coeff,
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         }
     }
 }
-- 
2.43.0


From 0ea80297668778eb8eb627d4f9b407915fb6b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:13 +0000
Subject: [PATCH 25/30] fix: BandPass filters in MathT, so low corners decay

---
 src/modifiers/bandpass.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/modifiers/bandpass.rs b/src/modifiers/bandpass.rs
index 3040ebe..90091c0 100644
--- a/src/modifiers/bandpass.rs
+++ b/src/modifiers/bandpass.rs
@@ -11,8 +11,8 @@ pub struct BandPass {
     b2: MathT,
     x1: SampleT,
     x2: SampleT,
-    y1: SampleT,
-    y2: SampleT,
+    y1: MathT,
+    y2: MathT,
 }
 
 impl BandPass {
@@ -30,8 +30,8 @@ impl BandPass {
             b2: 0.0,
             x1: SampleT::default(),
             x2: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
         };
 
         bp.reset();
@@ -49,8 +49,8 @@ impl BandPass {
             b2: 0.0,
             x1: SampleT::default(),
             x2: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
         };
 
         bp.reset();
@@ -132,16 +132,16 @@ impl BandPass {
 
 impl Modifier for BandPass {
     fn process(&mut self, x: SampleT) -> SampleT {
-        let y = (self.a0 * (x - self.x2) as MathT +
-            self.b1 * self.y1 as MathT - 
-            self.b2 * self.y2 as MathT) as SampleT;
+        let y = self.a0 * (x - self.x2) as MathT +
+            self.b1 * self.y1 - 
+            self.b2 * self.y2;
 
         self.y2 = self.y1;
         self.y1 = y;
         self.x2 = self.x1;
         self.x1 = x;
 
-        y
+        y as SampleT
     }
 }
 
@@ -162,8 +162,8 @@ impl Clone for BandPass {
             b2: self.b2,
             x1: SampleT::default(),
             x2: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
         }
     }
 }
-- 
2.43.0


From e1c32b067419ee18ca18de74a6ce34fa95d4a119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:46 +0000
Subject: [PATCH 26/30] fix: MonoResampler interpolates towards the next sample
 when just short of it

---
 src/utils/mono_resampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 3ead9b7..6133c3d 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -76,7 +76,7 @@ impl MonoResampler {
         } else if self.ind.trunc() as usize + 1 >= self.data.len() {
             self.data[self.ind.trunc() as usize].into_sample()
         } else {
-            self.data[(self.ind + 1.0).trunc() as usize].into_sample()
+            self.data[self.ind.trunc() as usize + 1].into_sample()
         };
 
         let x1: SampleT = self.data[self.ind.trunc() as usize].into_sample();
-- 
2.43.0


From 834f10a2358a09c44d8d9dcfbbdab46e0f00c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:39 +0000
Subject: [PATCH 27/30] fix: ADSR accumulates its gain in MathT, so long stages
 and slight decays end

---
 src/modifiers/adsr.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index 86b04f2..d5c8b10 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -22,13 +22,13 @@ pub enum ADSRState {
 /// 
 /// Creates a simple envelope for the given signal.
 pub struct ADSR {
-    a:SampleT,
-    d:SampleT,
-    s:SampleT,
-    r:SampleT,
-    r_slope:SampleT,
+    a:MathT,
+    d:MathT,
+    s:MathT,
+    r:MathT,
+    r_slope:MathT,
     state:ADSRState,
-    g:SampleT,
+    g:MathT,
 }
 
 impl ADSR {
@@ -43,10 +43,10 @@ impl ADSR {
     pub fn new(a:Duration,d:Duration,s:MathT,r:Duration) -> Self {
         let s = s.min(0.0);
         ADSR {
-            a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT) as SampleT,
-            d: ((db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT).max(1.0)) as SampleT,
-            s: db_to_linear(s) as SampleT,
-            r: (r.as_secs_f64() * SAMPLE_RATE as MathT).max(1.0) as SampleT,
+            a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT),
+            d: (db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT).max(1.0),
+            s: db_to_linear(s),
+            r: (r.as_secs_f64() * SAMPLE_RATE as MathT).max(1.0),
             r_slope: 0.0,
             state: ADSRState::Attack,
             g: 0.0
@@ -95,7 +95,7 @@ impl Modifier for ADSR {
             ADSRState::Stopped => return SampleT::default(),
         }
 
-        x * self.g
+        x * self.g as SampleT
     }
 }
 
-- 
2.43.0


From 3fc552ee1876d9f647182eec86abee6c325f8da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:09 +0000
Subject: [PATCH 28/30] fix: Envelope follows in MathT, so low frequencies
 settle

---
 src/modifiers/envelope.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/modifiers/envelope.rs b/src/modifiers/envelope.rs
index c7f92b8..c69b3e9 100644
--- a/src/modifiers/envelope.rs
+++ b/src/modifiers/envelope.rs
@@ -5,13 +5,13 @@ use super::*;
 /// Envelope Follower filter. I don't remember my lectures well enough to write
 /// a detailed description.
 pub struct Envelope {
-    au: SampleT,
-    bu: SampleT,
-    ad: SampleT,
-    bd: SampleT,
+    au: MathT,
+    bu: MathT,
+    ad: MathT,
+    bd: MathT,
 
-    x1: SampleT,
-    y1: SampleT,
+    x1: MathT,
+    y1: MathT,
 }
 
 impl Envelope {
@@ -20,8 +20,8 @@ impl Envelope {
     /// 
     /// [`Envelope`]: struct.Envelope.html
     pub fn new(lower: SampleT, upper: SampleT) -> Envelope{
-        let theta_u = (std::f32::consts::PI * upper * INV_SAMPLE_RATE as SampleT).tan();
-        let theta_d = (std::f32::consts::PI * lower * INV_SAMPLE_RATE as SampleT).tan();
+        let theta_u = (std::f64::consts::PI * upper as MathT * INV_SAMPLE_RATE).tan();
+        let theta_d = (std::f64::consts::PI * lower as MathT * INV_SAMPLE_RATE).tan();
 
         Envelope {
             au: theta_u / (1.0 + theta_u),
@@ -29,14 +29,15 @@ impl Envelope {
             ad: theta_d / (1.0 + theta_d),
             bd: (1.0 - theta_d) / (1.0 + theta_d),
 
-            x1: SampleT::default(),
-            y1: SampleT::default(),
+            x1: MathT::default(),
+            y1: MathT::default(),
         }
     }
 }
 
 impl Modifier for Envelope {
     fn process(&mut self, x: SampleT) -> SampleT {
+        let x = x as MathT;
         let y = if x.abs() > self.y1 {
             self.au * (x.abs() + self.x1.abs()) + self.bu * self.y1
         } else {
@@ -46,7 +47,7 @@ impl Modifier for Envelope {
         self.y1 = y;
         self.x1 = x;
 
-        y
+        y as SampleT
     }
 }
 
-- 
2.43.0


From 95a273be68aa63a3835d47efca8ae288948542e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:40 +0000
Subject: [PATCH 29/30] fix: write_wav refuses more channels than the header
 can hold

---
 src/utils/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 63a323b..f860bf7 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -160,6 +160,7 @@ pub fn read_wav(s: &mut dyn std::io::Read) -> std::io::Result<(wav::Header, Vec<
 /// * Anything that [`wav::write_wav`] specifies.
 /// * The channels don't have equal lengths.
 /// * The given vector contains no data.
+/// * There are more channels than a WAV header can hold.
 /// 
 /// # Example
 /// 
@@ -202,6 +203,11 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
         }
     }
 
+    // The header holds the size of a frame in 16 bits.
+    if tracks.len() * (bps as usize / 8) > u16::max_value() as usize {
+        return Err(Error::new(ErrorKind::Other, "Too many channels, aborting."));
+    }
+
     let mut buf = Vec::new();
 
     match bps {
-- 
2.43.0


From 7cfe3dfcfe1e4a680eb34c785f2ff2c5f69247fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:45 +0000
Subject: [PATCH 30/30] fix: bin2str reports success only for a complete
 listing

---
 utility/bin2str/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utility/bin2str/src/main.rs b/utility/bin2str/src/main.rs
index 69edf81..cfe1340 100644
--- a/utility/bin2str/src/main.rs
+++ b/utility/bin2str/src/main.rs
@@ -57,7 +57,7 @@ fn main() -> std::io::Result<()> {
         binstr.push_str("\n];\n");
 
         let mut out_file = std::fs::File::create("output.rs")?;
-        out_file.write(binstr.as_bytes())?;
+        out_file.write_all(binstr.as_bytes())?;
     // }
 
     Ok(())
-- 
2.43.0

