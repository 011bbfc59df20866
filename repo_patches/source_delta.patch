From b0783b0df0a63b78c8a594228d58eb0fd3e78fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:18 +0000
Subject: [PATCH 01/33] fix: Mono subtraction subtracts

---
 src/sample_format/mono.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/mono.rs b/src/sample_format/mono.rs
index a473592..83a0903 100644
--- a/src/sample_format/mono.rs
+++ b/src/sample_format/mono.rs
@@ -86,7 +86,7 @@ impl Sub<Mono> for Mono {
 
     fn sub(self, rhs: Mono) -> Self {
         Mono {
-            mono: self.mono + rhs.mono
+            mono: self.mono - rhs.mono
         }
     }
 }
-- 
2.43.0


From 86d6761230af3ff8480525ac70c70aaf6b8b542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:18 +0000
Subject: [PATCH 02/33] fix: Stereo::into_sample inverts from_sample

---
 src/sample_format/stereo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index 65eb571..a0478a3 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -50,7 +50,7 @@ impl SampleFormat for Stereo
     }
 
     fn into_sample(self) -> SampleT {
-        (self.left + self.right)/SampleT::sqrt(0.5)
+        (self.left + self.right) * SampleT::sqrt(0.5)
     }
 
     fn num_samples() -> usize {
-- 
2.43.0


From 2e2d6e345a0e708ede7de04b74d7afe897667b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 03/33] fix: Stereo *= MathT multiplies in MathT precision like
 *

---
 src/sample_format/stereo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index a0478a3..d1bee10 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -192,8 +192,8 @@ impl std::ops::Mul<MathT> for Stereo {
 }
 impl std::ops::MulAssign<MathT> for Stereo {
     fn mul_assign(&mut self, rhs: MathT) {
-        self.left *= rhs as SampleT;
-        self.right *= rhs as SampleT;
+        self.left = (self.left as MathT * rhs) as SampleT;
+        self.right = (self.right as MathT * rhs) as SampleT;
     }
 }
 
-- 
2.43.0


From 42b8ac841ad58738a4b91f58cea07b059db640ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 04/33] fix: Stereo panning puts -1 on the left and 1 on the
 right

---
 src/sample_format/stereo.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index d1bee10..e54e7e8 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -65,14 +65,14 @@ impl SampleFormat for Stereo
 impl Panner<f32> for Stereo {
     fn to_sample_format(s: SampleT, g: f32) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
@@ -84,14 +84,14 @@ impl Panner<f32> for Stereo {
 impl Panner<f64> for Stereo {
     fn to_sample_format(s: SampleT, g: f64) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
-- 
2.43.0


From 1c9e0f825bedfab8b948ff73a30ff1d97cd33740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 05/33] fix: samples_to_seconds divides by the sampling rate

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6b6ea99..6ce7fa5 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -43,7 +43,7 @@ pub fn clerp<T>(x:T, x1:T, x2:T, y1:T, y2:T) -> T
 
 /// Converts a given sample count to seconds.
 pub fn samples_to_seconds(s: usize) -> std::time::Duration {
-    std::time::Duration::from_secs_f64(s as f64 * SAMPLE_RATE as f64)
+    std::time::Duration::from_secs_f64(s as f64 / SAMPLE_RATE as f64)
 }
 
 /// Converts the given duration to samples, rounded to the nearest sample.
-- 
2.43.0


From 0b6e7096eff401d184ed37c2740672cbf227f2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:40 +0000
Subject: [PATCH 06/33] fix: normalize turns silent and constant tracks into
 silence

---
 src/utils/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6ce7fa5..303b358 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -65,26 +65,27 @@ pub fn db_to_linear(db: MathT) -> MathT {
 /// value.
 pub fn normalize(db: MathT, t: &mut SampleTrackT) {
     let y = t.clone();
-    let mut dc = 0.0;
+    let mut dc: MathT = 0.0;
 
     for s in &y {
-        dc += s;
+        dc += *s as MathT;
     }
 
-    dc /= y.len() as SampleT;
+    dc /= y.len() as MathT;
 
-    let mut max = 0.0;
+    let mut max: MathT = 0.0;
 
     for s in y {
-        if (s - dc).abs() > max {
-            max = (s - dc).abs();
+        if (s as MathT - dc).abs() > max {
+            max = (s as MathT - dc).abs();
         }
     }
 
-    let factor = db_to_linear(db) as SampleT / max;
+    // A silent or constant track has no peak to scale.
+    let factor = if max > 0.0 { db_to_linear(db) / max } else { 0.0 };
 
     for s in t {
-        *s = (*s - dc) * factor;
+        *s = ((*s as MathT - dc) * factor) as SampleT;
     }
 }
 
-- 
2.43.0


From cf6b3c099af6aee40e59307122a805d012dc5135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:40 +0000
Subject: [PATCH 07/33] fix: negative 24-bit samples keep their sign

---
 src/sample_format/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/mod.rs b/src/sample_format/mod.rs
index abd2375..bc3743f 100644
--- a/src/sample_format/mod.rs
+++ b/src/sample_format/mod.rs
@@ -136,11 +136,12 @@ pub fn sample_to_i16_bytes(s: SampleT) -> [u8; 2] {
 
 /// Converts an i32 24-bit sample to a `SampleT`.
 pub fn sample_from_i24(v: i32) -> SampleT {
-    v as SampleT / ((1 << 23) as SampleT - 1.0)
+    // Sign extend the lower 3 bytes, the upper byte is ignored.
+    ((v << 8) >> 8) as SampleT / ((1 << 23) as SampleT - 1.0)
 }
 /// Converts raw bytes to a `SampleT`.
 pub fn sample_from_i24_bytes(v:[u8;3]) -> SampleT {
-    (i32::from_le_bytes([v[0],v[1],v[2],0]) as SampleT) / ((1 << 23) as SampleT - 1.0)
+    sample_from_i24(i32::from_le_bytes([v[0],v[1],v[2],0]))
 }
 
 /// Converts a `SampleT` to an `i24`.
-- 
2.43.0


From de33ca829ccdcd77178d7f3ebf24eb316ab4b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:40 +0000
Subject: [PATCH 08/33] fix: write_wav delivers the whole file or fails

---
 src/utils/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 303b358..197ffa6 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -177,6 +177,10 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
     use std::io::{Error, ErrorKind};
     use crate::sample_format::*;
 
+    // The file is assembled in memory first as `wav::write_wav` ignores short
+    // writes.
+    let mut file = Vec::new();
+
     if tracks.len() == 0 {
         return Err(Error::new(ErrorKind::Other, "No channels given, aborting."));
     }
@@ -211,7 +215,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Eight(v),
-                d
+                &mut file
             )?;
         },
         16 => {
@@ -226,7 +230,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Sixteen(v),
-                d
+                &mut file
             )?;
         },
         24 => {
@@ -241,11 +245,11 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::TwentyFour(v),
-                d
+                &mut file
             )?;
         },
         _ => return Err(Error::new(ErrorKind::Other, "Unsupported bit depth, aborting.")),
     }
 
-    Ok(())
+    d.write_all(&file)
 }
-- 
2.43.0


From 32b30cbff9e6bd0b136adc6633fa99a00faa239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:40 +0000
Subject: [PATCH 09/33] fix: read_wav fails instead of panicking on a file
 without channels

---
 src/utils/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 197ffa6..81f9b38 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -102,6 +102,7 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
 /// 
 /// This function fails if:
 /// * Anything that [`wav::read_wav`] specifies.
+/// * The header specifies no channels.
 /// 
 /// [`std::io::Result`]: https://doc.rust-lang.org/std/io/type.Result.html
 /// [`wav::Header`]: https://docs.rs/wav/0.1.1/wav/struct.Header.html
@@ -110,6 +111,10 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
 pub fn read_wav(s: &mut dyn std::io::Read) -> std::io::Result<(wav::Header, Vec<SampleTrackT>)> {
     let (h, bd) = wav::read_wav(s)?;
 
+    if h.channel_count == 0 {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "File has no channels"));
+    }
+
     let mut tracks = Vec::new();
     for _ in 0..h.channel_count {
         tracks.push(SampleTrackT::new());
-- 
2.43.0


From 89359874c42b13dd1420838f9e1b4c9f853a7b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:44 +0000
Subject: [PATCH 10/33] fix: a cloned Delay has the same delay

---
 src/modifiers/delay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modifiers/delay.rs b/src/modifiers/delay.rs
index 70ff81d..8078dda 100644
--- a/src/modifiers/delay.rs
+++ b/src/modifiers/delay.rs
@@ -45,7 +45,7 @@ impl Clone for Delay {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
-- 
2.43.0


From 778a9371d626b7d9d86e32fcf156fac3cbf9a6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:45 +0000
Subject: [PATCH 11/33] fix: a cloned Echo has the same delay

---
 src/modifiers/echo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index cfba8e0..6c77e6a 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -43,7 +43,7 @@ impl Clone for Echo {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
-- 
2.43.0


From 9353c32ab5305213304a47e09b689f0a25e5a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:45 +0000
Subject: [PATCH 12/33] fix: Echo rounds its delay to the nearest sample and
 accepts very short ones

---
 src/modifiers/echo.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index 6c77e6a..2dee98e 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -12,12 +12,13 @@ pub struct Echo {
 
 impl Echo {
     /// Creates a new ['Echo'] object with the given delay duration and feedback
-    /// amount.
+    /// amount. The duration is rounded to the nearest sample, and is at least
+    /// one sample.
     /// 
     /// [`Echo`]: struct.Echo.html
     pub fn new(d: Duration, g: MathT) -> Self{
         let mut v = VecDeque::new();
-        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT) as usize) {
+        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT).round() as usize).max(1) {
             v.push_back(SampleT::default());
         }
 
-- 
2.43.0


From 01d919f877156543de190f59588d36fac03b0342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:45 +0000
Subject: [PATCH 13/33] fix: Sine interpolates between the last and first
 wavetable elements

---
 src/generators/sine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generators/sine.rs b/src/generators/sine.rs
index 06121c7..542dbcf 100644
--- a/src/generators/sine.rs
+++ b/src/generators/sine.rs
@@ -59,7 +59,7 @@ impl Generator for Sine {
 
         self.ind += self.inc;
 
-        if self.ind >= (WAVETABLE_SIZE as MathT)-1.0 {
+        if self.ind >= WAVETABLE_SIZE as MathT {
             self.ind -= WAVETABLE_SIZE as MathT;
         }
 
-- 
2.43.0


From 6aca137dd9e6f5ca766e1e507516229d8022a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:46 +0000
Subject: [PATCH 14/33] fix: Square keeps its position within the cycle when
 the frequency changes

---
 src/generators/square.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/generators/square.rs b/src/generators/square.rs
index 7a6ad93..e234494 100644
--- a/src/generators/square.rs
+++ b/src/generators/square.rs
@@ -19,7 +19,14 @@ impl FreqMod for Square {
     }
 
     fn set_frequency(&mut self, f: MathT) {
-        self.inv = SAMPLE_RATE as MathT/(2.0 * f);
+        let inv = SAMPLE_RATE as MathT/(2.0 * f);
+
+        // `ind` is counted in samples, keep its position within the cycle.
+        if self.inv.is_finite() && inv.is_finite() {
+            self.ind *= inv / self.inv;
+        }
+
+        self.inv = inv;
     }
 
     fn get_frequency(&self) -> MathT {
-- 
2.43.0


From 2ab11388d415a8c6209336b54d1ce81f7341754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:46 +0000
Subject: [PATCH 15/33] fix: Triangle keeps its frequency positive and its
 direction on frequency changes

---
 src/generators/triangle.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/generators/triangle.rs b/src/generators/triangle.rs
index ecc58d4..c3fd645 100644
--- a/src/generators/triangle.rs
+++ b/src/generators/triangle.rs
@@ -8,6 +8,8 @@ use super::*;
 pub struct Triangle {
     irate: MathT,
     inc: MathT,
+    /// Direction of the ramp, 1 or -1.
+    dir: MathT,
 }
 
 impl FreqMod for Triangle {
@@ -15,6 +17,7 @@ impl FreqMod for Triangle {
         Triangle {
             irate: 4.0 * f * INV_SAMPLE_RATE,
             inc: 0.0,
+            dir: 1.0,
         }
     }
 
@@ -31,10 +34,10 @@ impl Generator for Triangle {
     fn process(&mut self) -> SampleT {
         let y = self.inc;
 
-        self.inc += self.irate;
+        self.inc += self.dir * self.irate;
 
         if self.inc >= 1.0 || self.inc <= -1.0 {
-            self.irate = -self.irate;
+            self.dir = -self.dir;
 
             self.inc = if self.inc >= 1.0 {
                 2.0 - self.inc
@@ -51,7 +54,8 @@ impl Clone for Triangle {
     fn clone(&self) -> Self {
         Triangle {
             irate: self.irate,
-            inc: 0.0
+            inc: 0.0,
+            dir: 1.0,
         }
     }
 }
-- 
2.43.0


From b0bb079ab5f8513f2187c65dbacdef781ef18109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:46 +0000
Subject: [PATCH 16/33] fix: ADSR keeps long stages to their time

---
 src/modifiers/adsr.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index a94f6dd..eb7b87e 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -22,12 +22,12 @@ pub enum ADSRState {
 /// 
 /// Creates a simple envelope for the given signal.
 pub struct ADSR {
-    a:SampleT,
-    d:SampleT,
-    s:SampleT,
-    r:SampleT,
+    a:MathT,
+    d:MathT,
+    s:MathT,
+    r:MathT,
     state:ADSRState,
-    g:SampleT,
+    g:MathT,
 }
 
 impl ADSR {
@@ -42,10 +42,10 @@ impl ADSR {
     pub fn new(a:Duration,d:Duration,s:MathT,r:Duration) -> Self {
         let s = s.min(0.0);
         ADSR {
-            a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT) as SampleT,
-            d: ((db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
-            s: db_to_linear(s) as SampleT,
-            r: ((-db_to_linear(s))/(r.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
+            a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT),
+            d: (db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT),
+            s: db_to_linear(s),
+            r: (-db_to_linear(s))/(r.as_secs_f64() * SAMPLE_RATE as MathT),
             state: ADSRState::Attack,
             g: 0.0
         }
@@ -86,7 +86,7 @@ impl Modifier for ADSR {
             ADSRState::Stopped => return SampleT::default(),
         }
 
-        x * self.g
+        (x as MathT * self.g) as SampleT
     }
 }
 
-- 
2.43.0


From ef5149bf40d5d90bdca6bf786b8652d6097feb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:47 +0000
Subject: [PATCH 17/33] fix: ADSR without decay time and with a sustain level
 of 0 dB is not NaN

---
 src/modifiers/adsr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index eb7b87e..99af248 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -69,7 +69,8 @@ impl Modifier for ADSR {
             },
             ADSRState::Decay => {
                 self.g += self.d;
-                if self.g <= self.s {
+                // Also true for the NaN of a decay of no time to 0 dB.
+                if !(self.g > self.s) {
                     self.state = ADSRState::Sustain;
                     self.g = self.s;
                 }
-- 
2.43.0


From b20e856b483ff8be8eb348fe6af11841bf593014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:15 +0000
Subject: [PATCH 18/33] fix: LowPass is calculated in MathT, SampleT diverges
 at low cutoffs

---
 src/modifiers/lowpass.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/modifiers/lowpass.rs b/src/modifiers/lowpass.rs
index 3810279..44cf4f8 100644
--- a/src/modifiers/lowpass.rs
+++ b/src/modifiers/lowpass.rs
@@ -9,8 +9,8 @@ use super::*;
 pub struct LowPass {
     fc: MathT,
     r: MathT,
-    coeff: [SampleT; 4],
-    outs: [SampleT; 3]
+    coeff: [MathT; 4],
+    outs: [MathT; 3]
 }
 
 impl LowPass {
@@ -30,7 +30,7 @@ impl LowPass {
             fc,
             r,
             coeff: [0.0; 4],
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         };
 
         lp.reset();
@@ -71,16 +71,16 @@ impl LowPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.coeff[0] = (t.powf(3.0) / g) as SampleT;
-        self.coeff[1] = ((k*t.powf(2.0) + 2.0*k*t + 3.0) / g) as SampleT;
-        self.coeff[2] = ((-k*t - 3.0) / g) as SampleT;
-        self.coeff[3] = (1.0 / g) as SampleT;
+        self.coeff[0] = t.powf(3.0) / g;
+        self.coeff[1] = (k*t.powf(2.0) + 2.0*k*t + 3.0) / g;
+        self.coeff[2] = (-k*t - 3.0) / g;
+        self.coeff[3] = 1.0 / g;
     }
 }
 
 impl Modifier for LowPass {
     fn process(&mut self, x: SampleT) -> SampleT {
-        let y = self.coeff[0]*x +
+        let y = self.coeff[0]*x as MathT +
                 self.coeff[1]*self.outs[0] +
                 self.coeff[2]*self.outs[1] +
                 self.coeff[3]*self.outs[2];
@@ -89,7 +89,7 @@ impl Modifier for LowPass {
         self.outs[1] = self.outs[0];
         self.outs[0] = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -99,7 +99,7 @@ impl Clone for LowPass {
             fc: self.fc,
             r: self.r,
             coeff: self.coeff,
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         }
     }
 }
-- 
2.43.0


From dbe3e19ae3f4aca84b436e90a9f3c0c6511e9a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:15 +0000
Subject: [PATCH 19/33] fix: HighPass is calculated in MathT, SampleT diverges
 at low cutoffs

---
 src/modifiers/highpass.rs | 83 ++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 41 deletions(-)

diff --git a/src/modifiers/highpass.rs b/src/modifiers/highpass.rs
index 599ffcb..7d88f01 100644
--- a/src/modifiers/highpass.rs
+++ b/src/modifiers/highpass.rs
@@ -8,20 +8,20 @@ use super::*;
 /// High pass filter adapted from the 3rd Order Butterworth Low Pass Filter with
 /// resonance.
 pub struct HighPass {
-    a0: SampleT,
-    a1: SampleT,
-    a2: SampleT,
-    a3: SampleT,
-    b1: SampleT,
-    b2: SampleT,
-    b3: SampleT,
-
-    x1: SampleT,
-    x2: SampleT,
-    x3: SampleT,
-    y1: SampleT,
-    y2: SampleT,
-    y3: SampleT,
+    a0: MathT,
+    a1: MathT,
+    a2: MathT,
+    a3: MathT,
+    b1: MathT,
+    b2: MathT,
+    b3: MathT,
+
+    x1: MathT,
+    x2: MathT,
+    x3: MathT,
+    y1: MathT,
+    y2: MathT,
+    y3: MathT,
 
     fc: MathT,
     r: MathT
@@ -40,19 +40,19 @@ impl HighPass {
         let fc = fc.min(SAMPLE_RATE as MathT / 2.0);
         let r = r.min(1.0).max(0.0);
         let mut hp = HighPass {
-            a0: SampleT::default(),
-            a1: SampleT::default(),
-            a2: SampleT::default(),
-            a3: SampleT::default(),
-            b1: SampleT::default(),
-            b2: SampleT::default(),
-            b3: SampleT::default(),
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            a0: MathT::default(),
+            a1: MathT::default(),
+            a2: MathT::default(),
+            a3: MathT::default(),
+            b1: MathT::default(),
+            b2: MathT::default(),
+            b3: MathT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            x3: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc,
             r,
         };
@@ -95,19 +95,20 @@ impl HighPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.a0 = ( 1.0/g) as SampleT;
-        self.a1 = (-3.0/g) as SampleT;
-        self.a2 = ( 3.0/g) as SampleT;
-        self.a3 = (-1.0/g) as SampleT;
+        self.a0 =  1.0/g;
+        self.a1 = -3.0/g;
+        self.a2 =  3.0/g;
+        self.a3 = -1.0/g;
 
-        self.b1 = ((k*t.powf(2.0) + 2.0*k*t + 3.0)/g) as SampleT;
-        self.b2 = ((-k*t - 3.0)/g) as SampleT;
-        self.b3 = (1.0/g) as SampleT;
+        self.b1 = (k*t.powf(2.0) + 2.0*k*t + 3.0)/g;
+        self.b2 = (-k*t - 3.0)/g;
+        self.b3 = 1.0/g;
     }
 }
 
 impl Modifier for HighPass {
     fn process(&mut self, x: SampleT) -> SampleT {
+        let x = x as MathT;
         let y = self.a0*x + self.a1*self.x1 + self.a2*self.x2 + self.a3*self.x3 +
             self.b1*self.y1 + self.b2*self.y2 + self.b3*self.y3;
 
@@ -118,7 +119,7 @@ impl Modifier for HighPass {
         self.y2 = self.y1;
         self.y1 = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -132,12 +133,12 @@ impl Clone for HighPass {
             b1: self.b1,
             b2: self.b2,
             b3: self.b3,
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            x3: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc: self.fc,
             r: self.r,
         }
-- 
2.43.0


From 9ff94c016f438fd1ff004b2c2bd15c0ed59d4701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:15 +0000
Subject: [PATCH 20/33] fix: BandPass keeps its history in MathT, SampleT
 sticks at low corners

---
 src/modifiers/bandpass.rs | 41 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/modifiers/bandpass.rs b/src/modifiers/bandpass.rs
index 3040ebe..bf09bb0 100644
--- a/src/modifiers/bandpass.rs
+++ b/src/modifiers/bandpass.rs
@@ -9,10 +9,10 @@ pub struct BandPass {
     a0: MathT,
     b1: MathT,
     b2: MathT,
-    x1: SampleT,
-    x2: SampleT,
-    y1: SampleT,
-    y2: SampleT,
+    x1: MathT,
+    x2: MathT,
+    y1: MathT,
+    y2: MathT,
 }
 
 impl BandPass {
@@ -28,10 +28,10 @@ impl BandPass {
             a0: 0.0,
             b1: 0.0,
             b2: 0.0,
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
         };
 
         bp.reset();
@@ -47,10 +47,10 @@ impl BandPass {
             a0: 0.0,
             b1: 0.0,
             b2: 0.0,
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
         };
 
         bp.reset();
@@ -132,16 +132,17 @@ impl BandPass {
 
 impl Modifier for BandPass {
     fn process(&mut self, x: SampleT) -> SampleT {
-        let y = (self.a0 * (x - self.x2) as MathT +
-            self.b1 * self.y1 as MathT - 
-            self.b2 * self.y2 as MathT) as SampleT;
+        let x = x as MathT;
+        let y = self.a0 * (x - self.x2) +
+            self.b1 * self.y1 - 
+            self.b2 * self.y2;
 
         self.y2 = self.y1;
         self.y1 = y;
         self.x2 = self.x1;
         self.x1 = x;
 
-        y
+        y as SampleT
     }
 }
 
@@ -160,10 +161,10 @@ impl Clone for BandPass {
             a0: self.a0,
             b1: self.b1,
             b2: self.b2,
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
         }
     }
 }
-- 
2.43.0


From 376ac88883c140d246eb79aedf4530b45e7204cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:15 +0000
Subject: [PATCH 21/33] fix: Generic accepts zeros and poles in any order

---
 src/modifiers/generic.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/modifiers/generic.rs b/src/modifiers/generic.rs
index 87d4e8d..4acadc8 100644
--- a/src/modifiers/generic.rs
+++ b/src/modifiers/generic.rs
@@ -29,16 +29,8 @@ pub struct Generic {
 impl Generic {
     /// Creates a new Generic filter from the given pole and zero parameters.
     pub fn new(zeros: Zeros, poles: Poles) -> Generic {
-        let z_back = if let Some(z) = zeros.back() {
-            z.0 + 1
-        } else {
-            0
-        };
-        let p_back = if let Some(p) = poles.back() {
-            p.0 + 1
-        } else {
-            0
-        };
+        let z_back = zeros.iter().map(|z| z.0 + 1).max().unwrap_or(0);
+        let p_back = poles.iter().map(|p| p.0 + 1).max().unwrap_or(0);
         Generic {
             zeros,
             poles,
-- 
2.43.0


From abb74467d155c81086f691f0d20cd4050a58c309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:16 +0000
Subject: [PATCH 22/33] fix: MonoResampler tracks its position in MathT,
 SampleT drifts on long tracks

---
 src/utils/mono_resampler.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 39b9759..4da0b22 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -7,14 +7,14 @@ use super::*;
 use sample_format::{SampleFormat, MonoTrackT};
 
 /// Type used for fractional indexing.
-type IndexT = SampleT;
+type IndexT = MathT;
 
 /// Struct tracking all of the data required for resampling, with some extra
 /// features like playback speed and looping.
 pub struct MonoResampler {
     data: MonoTrackT,
     ind: IndexT,
-    inc: SampleT,
+    inc: MathT,
     speed: MathT,
     loop_start: usize,
     loop_end: usize,
@@ -39,7 +39,7 @@ impl MonoResampler {
         MonoResampler {
             data,
             ind: 0.0,
-            inc: (source_sample_rate as MathT * INV_SAMPLE_RATE) as SampleT,
+            inc: source_sample_rate as MathT * INV_SAMPLE_RATE,
             speed: 1.0,
             loop_start,
             loop_end,
@@ -75,7 +75,7 @@ impl MonoResampler {
 
         let y = x1 + self.ind.fract() as SampleT * (x2 - x1);
 
-        self.ind += self.inc * self.speed as SampleT;
+        self.ind += self.inc * self.speed;
 
         if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
             self.ind -= (self.loop_end - self.loop_start) as IndexT;
-- 
2.43.0


From e17b1317fa58455a56e5bb02805797f7f01b552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:16 +0000
Subject: [PATCH 23/33] fix: MonoResampler loops seamlessly and with steps
 longer than the loop

---
 src/utils/mono_resampler.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 4da0b22..e111009 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -62,8 +62,8 @@ impl MonoResampler {
             return SampleT::default();
         }
 
-        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.data.len() && self.loop_end != 0 {
-            self.data[(self.ind - (self.loop_end - self.loop_start) as IndexT) as usize].into_sample()
+        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.loop_end && self.loop_end != 0 {
+            self.data[self.loop_start].into_sample()
         } else if self.ind.trunc() as usize + 1 >= self.data.len() {
             self.data[self.ind.trunc() as usize].into_sample()
         } else {
@@ -78,7 +78,9 @@ impl MonoResampler {
         self.ind += self.inc * self.speed;
 
         if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
-            self.ind -= (self.loop_end - self.loop_start) as IndexT;
+            let start = self.loop_start as IndexT;
+
+            self.ind = start + (self.ind - start) % (self.loop_end - self.loop_start) as IndexT;
         }
 
         y
-- 
2.43.0


From 1ead9c5abdd78ea00f861844e0efab1e9ab23f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:59 +0000
Subject: [PATCH 24/33] fix: ComplexSound processes blocks after the blocks
 feeding them

The order was breadth first, so a block on a short and a long path ran before
the long path had arrived; blocks only reachable through a cycle, or any block
once the input node was fed or the output node fed something, were left out.
---
 src/sounds/complex_sound.rs | 55 +++++++++++++++----------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index 312cd87..b7532c2 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -11,6 +11,7 @@ use super::*;
 use std::sync::Arc;
 use std::collections::VecDeque;
 use petgraph::graph;
+use petgraph::visit::{DfsPostOrder, EdgeFiltered, EdgeRef};
 
 /// Alias for the graph type used by [`ComplexSound`].
 /// 
@@ -132,49 +133,37 @@ impl ComplexSound {
     }
 
     /// Processes the graph and constructs the order to process the
-    /// [`GraphNode`]s.
+    /// [`GraphNode`]s: every node comes after the nodes connected to it, except
+    /// along connections closing a cycle, into the input gain or out of the
+    /// output gain.
     /// 
     /// [`GraphNode`]: type.GraphNode.html
     fn process_order(&mut self) {
-        self.process_order.clear();
+        let ig = self.input_gain;
+        let og = self.output_gain;
 
-        self.process_order.extend(self.graph.externals(petgraph::Direction::Incoming));
-        let mut i = 0;
-        while i < self.process_order.len() {
-            let neighbors = self.graph.neighbors(self.process_order[i]);
-            self.process_order.extend(neighbors);
+        self.process_order.clear();
 
-            let mut j = 0;
-            while j < i {
-                Self::remove_dups(&mut self.process_order, j);
-                j += 1;
+        let forward = EdgeFiltered::from_fn(
+            &self.graph,
+            |e| e.target() != ig && e.source() != og
+        );
+        let roots = std::iter::once(ig)
+            .chain(self.graph.externals(petgraph::Direction::Incoming))
+            .chain(self.graph.node_indices());
+
+        let mut dfs = DfsPostOrder::empty(&forward);
+        for root in roots {
+            dfs.move_to(root);
+            while let Some(node) = dfs.next(&forward) {
+                self.process_order.push_front(node);
             }
-
-            i += 1;
         }
 
-        let ig = self.input_gain;
-        let og = self.output_gain;
-
         self.process_order.retain(|e| *e != ig && *e != og);
 
-        self.process_order.push_front(self.input_gain);
-        self.process_order.push_back(self.output_gain);
-    }
-
-    /// Removes duplicate [`GraphNode`]s from the process order to prevent parsing cycles
-    /// 
-    /// [`GraphNode`]: type.GraphNode.html
-    fn remove_dups(v: &mut ProcessOrder, whitelist: usize) {
-        let mut i = whitelist + 1;
-
-        while i < v.len() {
-            if v[i] == v[whitelist] {
-                v.remove(i);
-            } else {
-                i += 1;
-            }
-        }
+        self.process_order.push_front(ig);
+        self.process_order.push_back(og);
     }
 }
 
-- 
2.43.0


From 12d3905dfd22a1b7f73289aee4484ac8a0c7b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:59 +0000
Subject: [PATCH 25/33] fix: ComplexSound processes every block before any
 connection is made

Without a call to add_connection or remove_connection the order stayed empty,
so nothing was processed and input piled up in the input node.
---
 src/sounds/complex_sound.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index b7532c2..656aabf 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -67,7 +67,7 @@ impl ComplexSound {
             )
         );
 
-        ComplexSound {
+        let mut sound = ComplexSound {
             graph,
             process_order: ProcessOrder::new(),
             input_gain,
@@ -75,7 +75,11 @@ impl ComplexSound {
             id: None,
             is_muted: false,
             is_paused: false
-        }
+        };
+
+        sound.process_order();
+
+        sound
     }
 
     /// Returns the ['GraphNode'] containing the input gain [`Modifier`].
@@ -103,7 +107,11 @@ impl ComplexSound {
     /// [`add_connection]: struct.ComplexSound.html#method.add_connection
     /// [`remove_connection]: struct.ComplexSound.html#method.remove_connection
     pub fn add_block(&mut self, block: BlockSP) -> GraphNode {
-        self.graph.add_node(block)
+        let node = self.graph.add_node(block);
+
+        self.process_order();
+
+        node
     }
 
     /// Adds a new connection (edge) between the two given [`GraphNode`]s.
-- 
2.43.0


From 6b0f6e784b0753fdf786c89b7bc211a2de7aebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:36 +0000
Subject: [PATCH 26/33] fix: StandardChannel outputs the samples of its process
 time

The output only ever got capacity, never a length, so processing produced
nothing at all.
---
 src/channels/standard_channel.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 0b0a1dd..345cb82 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -14,6 +14,7 @@ pub struct StandardChannel<SF>
     where SF: SampleFormat
 {
     output: Vec<SF>,
+    samples: usize,
     sounds: HashMap<usize, SoundSP>,
     gain: SampleT,
     id_counter: usize
@@ -30,7 +31,8 @@ impl<SF> StandardChannel<SF>
     /// [`set_process_time`]: ../trait.Channel.html#tymethod.set_process_time
     pub fn new(gain: MathT) -> Self {
         StandardChannel {
-            output: Vec::with_capacity((0.01 * SAMPLE_RATE as MathT) as usize),
+            output: Vec::new(),
+            samples: (0.01 * SAMPLE_RATE as MathT) as usize,
             sounds: HashMap::new(),
             gain: gain as SampleT,
             id_counter: 0
@@ -50,7 +52,7 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     where SF: SampleFormat
 {
     fn set_process_time(&mut self, d: Duration) {
-        self.output = Vec::with_capacity((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize);
+        self.samples = (d.as_secs_f64() * SAMPLE_RATE as MathT) as usize;
     }
 
     fn get_output(&self) -> &Vec<SF> {
@@ -62,7 +64,8 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     }
 
     fn process(&mut self) {
-        self.output.resize_with(self.output.len(), SF::default);
+        self.output.clear();
+        self.output.resize_with(self.samples, SF::default);
 
         for sample in &mut self.output {
             for mut sound in &mut self.sounds {
-- 
2.43.0


From 8cb69d600390ffdf656109ef6aa434557c5debe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:36 +0000
Subject: [PATCH 27/33] fix: StandardChannel counts the samples of its process
 time exactly

In floating point 9ms came out as 431 samples instead of 432.
---
 src/channels/standard_channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 345cb82..4da6018 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -52,7 +52,7 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     where SF: SampleFormat
 {
     fn set_process_time(&mut self, d: Duration) {
-        self.samples = (d.as_secs_f64() * SAMPLE_RATE as MathT) as usize;
+        self.samples = (d.as_nanos() * SAMPLE_RATE as u128 / 1_000_000_000) as usize;
     }
 
     fn get_output(&self) -> &Vec<SF> {
-- 
2.43.0


From db00ded7b80e14a4b93ed43f995b4b20174e5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:36 +0000
Subject: [PATCH 28/33] fix: StandardChannel skips a sound in use elsewhere
 instead of panicking

add_sound leaves the caller with a handle to the sound, and as long as it was
kept processing the channel panicked.
---
 src/channels/standard_channel.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 4da6018..4c61272 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -68,8 +68,10 @@ impl<SF> Channel<SF> for StandardChannel<SF>
         self.output.resize_with(self.samples, SF::default);
 
         for sample in &mut self.output {
-            for mut sound in &mut self.sounds {
-                *sample += SF::from_sample(Arc::get_mut(&mut sound.1).unwrap().process(Default::default()));
+            for sound in self.sounds.values_mut() {
+                if let Some(sound) = Arc::get_mut(sound) {
+                    *sample += SF::from_sample(sound.process(Default::default()));
+                }
             }
 
             *sample *= self.gain;
-- 
2.43.0


From a675c133e39560cd3962d1717dee021acfd3e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:45 +0000
Subject: [PATCH 29/33] fix: bin2str emits an array length Rust accepts

---
 utility/bin2str/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utility/bin2str/src/main.rs b/utility/bin2str/src/main.rs
index 69edf81..5fdcc93 100644
--- a/utility/bin2str/src/main.rs
+++ b/utility/bin2str/src/main.rs
@@ -22,14 +22,14 @@ fn byte2char(x: &[u8]) -> String {
     s
 }
 
-fn convert_file(x: &mut dyn std::io::Read) -> std::io::Result<String> {
+fn convert_file(x: &mut dyn std::io::Read) -> std::io::Result<(usize, String)> {
     let mut bytes = Vec::new();
     x.read_to_end(&mut bytes)?;
 
     let mut bytestr = byte2char(bytes.as_slice());
     bytestr.pop(); bytestr.pop();
 
-    Ok(bytestr)
+    Ok((bytes.len(), bytestr))
 }
 
 fn main() -> std::io::Result<()> {
@@ -52,8 +52,8 @@ fn main() -> std::io::Result<()> {
     let a = String::from("input.wav");
         let mut inp_file: File = File::open(Path::new(a.as_str()))?;
 
-        let mut binstr = convert_file(&mut inp_file)?;
-        binstr.insert_str(0, "pub static wav: [u8;_] = [\n");
+        let (len, mut binstr) = convert_file(&mut inp_file)?;
+        binstr.insert_str(0, format!("pub static wav: [u8;{}] = [\n", len).as_str());
         binstr.push_str("\n];\n");
 
         let mut out_file = std::fs::File::create("output.rs")?;
-- 
2.43.0


From ec643954d07c7244dea2cc7bafa83206959f6575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:45 +0000
Subject: [PATCH 30/33] fix: bin2str writes the whole table or fails

---
 utility/bin2str/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utility/bin2str/src/main.rs b/utility/bin2str/src/main.rs
index 5fdcc93..3360485 100644
--- a/utility/bin2str/src/main.rs
+++ b/utility/bin2str/src/main.rs
@@ -57,7 +57,7 @@ fn main() -> std::io::Result<()> {
         binstr.push_str("\n];\n");
 
         let mut out_file = std::fs::File::create("output.rs")?;
-        out_file.write(binstr.as_bytes())?;
+        out_file.write_all(binstr.as_bytes())?;
     // }
 
     Ok(())
-- 
2.43.0


From d3a1e569a382cd4a17df5007144b6c36a7f97661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:27 +0000
Subject: [PATCH 31/33] fix: write_wav refuses more channels than a WAV header
 can state

The channel count and frame size are 16 bits wide, more channels panicked on
the overflow or wrote a header describing fewer of them.
---
 src/utils/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 81f9b38..70c9f52 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -190,6 +190,10 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
         return Err(Error::new(ErrorKind::Other, "No channels given, aborting."));
     }
 
+    if tracks.len() * (bps as usize / 8) > u16::max_value() as usize {
+        return Err(Error::new(ErrorKind::Other, "Too many channels for a WAV header, aborting."));
+    }
+
     let len = tracks[0].len();
 
     for t in &mut tracks {
-- 
2.43.0


From b6b4fa2731cd53112342794e4c9100033320d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:45 +0000
Subject: [PATCH 32/33] fix: MonoResampler rounding up to the sample after the
 next

Just below a whole position adding 1.0 rounds up, which skipped a sample or
panicked at the end of the track.
---
 src/utils/mono_resampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index e111009..b9d4bcd 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -67,7 +67,7 @@ impl MonoResampler {
         } else if self.ind.trunc() as usize + 1 >= self.data.len() {
             self.data[self.ind.trunc() as usize].into_sample()
         } else {
-            self.data[(self.ind + 1.0).trunc() as usize].into_sample()
+            self.data[self.ind.trunc() as usize + 1].into_sample()
         };
 
         let x1: SampleT = self.data[self.ind.trunc() as usize].into_sample();
-- 
2.43.0


From d31b54f076438be31b37d677b3cc02968fbbeaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:54 +0000
Subject: [PATCH 33/33] fix: ADSR release of no time from a sustain level of
 silence gives NaN

---
 src/modifiers/adsr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index 99af248..e541cae 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -79,7 +79,8 @@ impl Modifier for ADSR {
             },
             ADSRState::Release => {
                 self.g += self.r;
-                if self.g <= 0.0 {
+                // Also true for the NaN of a release of no time from silence.
+                if !(self.g > 0.0) {
                     self.state = ADSRState::Stopped;
                     self.g = 0.0;
                 }
-- 
2.43.0

