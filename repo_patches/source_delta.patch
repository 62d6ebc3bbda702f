From 578f2fac2006b65c32e2a0d16891ae83978c760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 01/29] fix: subtracting Mono samples added them

---
 src/sample_format/mono.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/mono.rs b/src/sample_format/mono.rs
index a473592..83a0903 100644
--- a/src/sample_format/mono.rs
+++ b/src/sample_format/mono.rs
@@ -86,7 +86,7 @@ impl Sub<Mono> for Mono {
 
     fn sub(self, rhs: Mono) -> Self {
         Mono {
-            mono: self.mono + rhs.mono
+            mono: self.mono - rhs.mono
         }
     }
 }
-- 
2.43.0


From f1de2a43dbec9c2c0526f1a2c8f7ef18289dbc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 02/29] fix: Stereo::into_sample doubled the sample from_sample
 had stored

---
 src/sample_format/stereo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index 65eb571..ebaebc9 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -50,7 +50,7 @@ impl SampleFormat for Stereo
     }
 
     fn into_sample(self) -> SampleT {
-        (self.left + self.right)/SampleT::sqrt(0.5)
+        (self.left + self.right)*SampleT::sqrt(0.5)
     }
 
     fn num_samples() -> usize {
-- 
2.43.0


From 9dd45e6c30af9fc963c878c4c3b9803e097d2485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 03/29] fix: scaling Stereo in place by a MathT overflowed
 where the binary form does not

---
 src/sample_format/stereo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index ebaebc9..e3712ea 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -192,8 +192,8 @@ impl std::ops::Mul<MathT> for Stereo {
 }
 impl std::ops::MulAssign<MathT> for Stereo {
     fn mul_assign(&mut self, rhs: MathT) {
-        self.left *= rhs as SampleT;
-        self.right *= rhs as SampleT;
+        self.left = (self.left as MathT * rhs) as SampleT;
+        self.right = (self.right as MathT * rhs) as SampleT;
     }
 }
 
-- 
2.43.0


From ec9c61b32249c64ac84a1896b12f9c48e18c966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 04/29] fix: panning sent the signal to the wrong side and
 muted one side at the centre

---
 src/sample_format/stereo.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index e3712ea..d8c0568 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -65,14 +65,14 @@ impl SampleFormat for Stereo
 impl Panner<f32> for Stereo {
     fn to_sample_format(s: SampleT, g: f32) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
@@ -84,14 +84,14 @@ impl Panner<f32> for Stereo {
 impl Panner<f64> for Stereo {
     fn to_sample_format(s: SampleT, g: f64) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
-- 
2.43.0


From 0b49d4168b92c483b0891ac0662ce202267a6ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 05/29] fix: samples_to_seconds multiplied by the sampling rate

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6b6ea99..6ce7fa5 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -43,7 +43,7 @@ pub fn clerp<T>(x:T, x1:T, x2:T, y1:T, y2:T) -> T
 
 /// Converts a given sample count to seconds.
 pub fn samples_to_seconds(s: usize) -> std::time::Duration {
-    std::time::Duration::from_secs_f64(s as f64 * SAMPLE_RATE as f64)
+    std::time::Duration::from_secs_f64(s as f64 / SAMPLE_RATE as f64)
 }
 
 /// Converts the given duration to samples, rounded to the nearest sample.
-- 
2.43.0


From e130fc4de54e48ee64c1ca692ddc4c29ceb4ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 06/29] fix: negative 24-bit samples were read as large
 positive ones

---
 src/sample_format/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/mod.rs b/src/sample_format/mod.rs
index abd2375..21e466b 100644
--- a/src/sample_format/mod.rs
+++ b/src/sample_format/mod.rs
@@ -136,11 +136,12 @@ pub fn sample_to_i16_bytes(s: SampleT) -> [u8; 2] {
 
 /// Converts an i32 24-bit sample to a `SampleT`.
 pub fn sample_from_i24(v: i32) -> SampleT {
-    v as SampleT / ((1 << 23) as SampleT - 1.0)
+    // Ignore the upper byte, taking the sign from bit 23.
+    ((v << 8) >> 8) as SampleT / ((1 << 23) as SampleT - 1.0)
 }
 /// Converts raw bytes to a `SampleT`.
 pub fn sample_from_i24_bytes(v:[u8;3]) -> SampleT {
-    (i32::from_le_bytes([v[0],v[1],v[2],0]) as SampleT) / ((1 << 23) as SampleT - 1.0)
+    sample_from_i24(i32::from_le_bytes([v[0],v[1],v[2],0]))
 }
 
 /// Converts a `SampleT` to an `i24`.
-- 
2.43.0


From c2dfff1652c5b72adb6c227fabe8bed947fe2c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 07/29] fix: 24-bit conversion wrapped around where 8 and 16
 bit saturate

---
 src/sample_format/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/mod.rs b/src/sample_format/mod.rs
index 21e466b..365b6c0 100644
--- a/src/sample_format/mod.rs
+++ b/src/sample_format/mod.rs
@@ -146,7 +146,7 @@ pub fn sample_from_i24_bytes(v:[u8;3]) -> SampleT {
 
 /// Converts a `SampleT` to an `i24`.
 pub fn sample_to_i24(s: SampleT) -> i32 {
-    (s * ((1<<23) as SampleT - 1.0)).round() as i32
+    ((s * ((1<<23) as SampleT - 1.0)).round() as i32).max(-(1<<23)).min((1<<23) - 1)
 }
 /// Converts a `SampleT` to raw little-endian bytes.
 pub fn sample_to_i24_bytes(s: SampleT) -> [u8; 3] {
-- 
2.43.0


From 3eb4f5d458397ef53d54eb1e08a31993954cba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 08/29] fix: normalize turned silent tracks into NaN and kept
 part of the offset of long ones

---
 src/utils/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6ce7fa5..deaa0a1 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -64,27 +64,27 @@ pub fn db_to_linear(db: MathT) -> MathT {
 /// Normalizes the given audio track to have a peak value at the given dBFS
 /// value.
 pub fn normalize(db: MathT, t: &mut SampleTrackT) {
-    let y = t.clone();
-    let mut dc = 0.0;
+    let mut dc: MathT = 0.0;
 
-    for s in &y {
-        dc += s;
+    for s in t.iter() {
+        dc += *s as MathT;
     }
 
-    dc /= y.len() as SampleT;
+    dc /= t.len() as MathT;
 
-    let mut max = 0.0;
+    let mut max: MathT = 0.0;
 
-    for s in y {
-        if (s - dc).abs() > max {
-            max = (s - dc).abs();
+    for s in t.iter() {
+        if (*s as MathT - dc).abs() > max {
+            max = (*s as MathT - dc).abs();
         }
     }
 
-    let factor = db_to_linear(db) as SampleT / max;
+    // A track without any variation has no peak to scale.
+    let factor = if max > 0.0 { db_to_linear(db) / max } else { 0.0 };
 
     for s in t {
-        *s = (*s - dc) * factor;
+        *s = ((*s as MathT - dc) * factor) as SampleT;
     }
 }
 
-- 
2.43.0


From 767b5285c6f929df09172b270ca820f6d255935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 09/29] fix: write_wav reported success when the destination
 took only part of the file

---
 src/utils/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index deaa0a1..1113bb4 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -197,6 +197,10 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
         }
     }
 
+    // The wav crate doesn't notice when a destination accepts only part of the
+    // data, so the file is put together in memory first.
+    let mut bytes = Vec::new();
+
     match bps {
         8 => {
             let mut v = Vec::new();
@@ -210,7 +214,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Eight(v),
-                d
+                &mut bytes
             )?;
         },
         16 => {
@@ -225,7 +229,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Sixteen(v),
-                d
+                &mut bytes
             )?;
         },
         24 => {
@@ -240,11 +244,11 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::TwentyFour(v),
-                d
+                &mut bytes
             )?;
         },
         _ => return Err(Error::new(ErrorKind::Other, "Unsupported bit depth, aborting.")),
     }
 
-    Ok(())
+    d.write_all(&bytes)
 }
-- 
2.43.0


From 4c4851169c4da85c219832eeba41fe26b2bddce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 10/29] fix: read_wav panicked on 8-bit files declaring no
 channels

---
 src/utils/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 1113bb4..47dc783 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -109,6 +109,10 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
 pub fn read_wav(s: &mut dyn std::io::Read) -> std::io::Result<(wav::Header, Vec<SampleTrackT>)> {
     let (h, bd) = wav::read_wav(s)?;
 
+    if h.channel_count == 0 {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "No channels in file, aborting."));
+    }
+
     let mut tracks = Vec::new();
     for _ in 0..h.channel_count {
         tracks.push(SampleTrackT::new());
-- 
2.43.0


From 835389169e9d510daba0f2bd040a7a48a1d69689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 11/29] fix: Sine skipped the last wavetable step, glitching
 once per wrap

---
 src/generators/sine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generators/sine.rs b/src/generators/sine.rs
index 06121c7..542dbcf 100644
--- a/src/generators/sine.rs
+++ b/src/generators/sine.rs
@@ -59,7 +59,7 @@ impl Generator for Sine {
 
         self.ind += self.inc;
 
-        if self.ind >= (WAVETABLE_SIZE as MathT)-1.0 {
+        if self.ind >= WAVETABLE_SIZE as MathT {
             self.ind -= WAVETABLE_SIZE as MathT;
         }
 
-- 
2.43.0


From 3ed764a7d4fcae36611ca940aa418f1b7d0d75d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 12/29] fix: Triangle lost its direction when retuned, read or
 cloned while falling

---
 src/generators/triangle.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generators/triangle.rs b/src/generators/triangle.rs
index ecc58d4..7441133 100644
--- a/src/generators/triangle.rs
+++ b/src/generators/triangle.rs
@@ -19,11 +19,12 @@ impl FreqMod for Triangle {
     }
 
     fn set_frequency(&mut self, f: MathT) {
-        self.irate = 4.0 * f * INV_SAMPLE_RATE;
+        // The sign of the rate is the current direction of the waveform.
+        self.irate = (4.0 * f * INV_SAMPLE_RATE).copysign(self.irate);
     }
 
     fn get_frequency(&self) -> MathT {
-        self.irate / (4.0 * INV_SAMPLE_RATE)
+        self.irate.abs() / (4.0 * INV_SAMPLE_RATE)
     }
 }
 
@@ -50,7 +51,7 @@ impl Generator for Triangle {
 impl Clone for Triangle {
     fn clone(&self) -> Self {
         Triangle {
-            irate: self.irate,
+            irate: self.irate.abs(),
             inc: 0.0
         }
     }
-- 
2.43.0


From 17a807a182d1d839da4e3c130e52fa43e2d717ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 13/29] fix: Square stayed high for many cycles after being
 tuned up

---
 src/generators/square.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/generators/square.rs b/src/generators/square.rs
index 7a6ad93..b3fca1e 100644
--- a/src/generators/square.rs
+++ b/src/generators/square.rs
@@ -19,7 +19,15 @@ impl FreqMod for Square {
     }
 
     fn set_frequency(&mut self, f: MathT) {
-        self.inv = SAMPLE_RATE as MathT/(2.0 * f);
+        let inv = SAMPLE_RATE as MathT/(2.0 * f);
+
+        // Keep the position within the cycle, whose length changes.
+        let ind = self.ind * (inv / self.inv);
+        if ind.is_finite() {
+            self.ind = ind;
+        }
+
+        self.inv = inv;
     }
 
     fn get_frequency(&self) -> MathT {
-- 
2.43.0


From 95327a009c3652d951edc2c7e3096f8dcb0b733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 14/29] fix: write_wav wrote a corrupt header for more channels
 than one can describe

---
 src/utils/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 47dc783..b5eb132 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -201,6 +201,10 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
         }
     }
 
+    if tracks.len() * (bps as usize / 8) > u16::max_value() as usize {
+        return Err(Error::new(ErrorKind::Other, "Too many channels for a WAV file, aborting."));
+    }
+
     // The wav crate doesn't notice when a destination accepts only part of the
     // data, so the file is put together in memory first.
     let mut bytes = Vec::new();
-- 
2.43.0


From 096a1390b2a528e4238cc6a1ca09adc213b67911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 15/29] fix: MonoResampler drifted off pitch and finally got
 stuck on long tracks

---
 src/utils/mono_resampler.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 39b9759..1bde2a0 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -7,14 +7,14 @@ use super::*;
 use sample_format::{SampleFormat, MonoTrackT};
 
 /// Type used for fractional indexing.
-type IndexT = SampleT;
+type IndexT = MathT;
 
 /// Struct tracking all of the data required for resampling, with some extra
 /// features like playback speed and looping.
 pub struct MonoResampler {
     data: MonoTrackT,
     ind: IndexT,
-    inc: SampleT,
+    inc: MathT,
     speed: MathT,
     loop_start: usize,
     loop_end: usize,
@@ -39,7 +39,7 @@ impl MonoResampler {
         MonoResampler {
             data,
             ind: 0.0,
-            inc: (source_sample_rate as MathT * INV_SAMPLE_RATE) as SampleT,
+            inc: source_sample_rate * INV_SAMPLE_RATE,
             speed: 1.0,
             loop_start,
             loop_end,
@@ -75,7 +75,7 @@ impl MonoResampler {
 
         let y = x1 + self.ind.fract() as SampleT * (x2 - x1);
 
-        self.ind += self.inc * self.speed as SampleT;
+        self.ind += self.inc * self.speed;
 
         if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
             self.ind -= (self.loop_end - self.loop_start) as IndexT;
-- 
2.43.0


From e7b5b174ad36ad6fdc7575cb220332a524b2c479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 16/29] fix: MonoResampler blended the wrong sample at loop
 seams and ran out of short loops

---
 src/utils/mono_resampler.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 1bde2a0..97ae9ee 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -58,12 +58,14 @@ impl MonoResampler {
 
     /// Calculates and returns the next sample.
     pub fn process(&mut self) -> SampleT {
-        if self.ind as usize >= self.data.len() && self.loop_end == 0 {
+        let looping = self.loop_end > self.loop_start;
+
+        if self.ind as usize >= self.data.len() && !looping {
             return SampleT::default();
         }
 
-        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.data.len() && self.loop_end != 0 {
-            self.data[(self.ind - (self.loop_end - self.loop_start) as IndexT) as usize].into_sample()
+        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.loop_end && looping {
+            self.data[self.loop_start].into_sample()
         } else if self.ind.trunc() as usize + 1 >= self.data.len() {
             self.data[self.ind.trunc() as usize].into_sample()
         } else {
@@ -77,8 +79,15 @@ impl MonoResampler {
 
         self.ind += self.inc * self.speed;
 
-        if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
-            self.ind -= (self.loop_end - self.loop_start) as IndexT;
+        if self.ind >= self.loop_end as IndexT && looping {
+            let start = self.loop_start as IndexT;
+
+            self.ind = start + (self.ind - start) % (self.loop_end - self.loop_start) as IndexT;
+
+            // The sum may have been rounded up to the end of the loop.
+            if self.ind >= self.loop_end as IndexT {
+                self.ind = start;
+            }
         }
 
         y
-- 
2.43.0


From 00dd6aa41b966908bdcc189c743acaf7b66cc5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 17/29] fix: clones of Delay and Echo were 48000 times as long
 as the original

---
 src/modifiers/delay.rs | 2 +-
 src/modifiers/echo.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/delay.rs b/src/modifiers/delay.rs
index 70ff81d..8078dda 100644
--- a/src/modifiers/delay.rs
+++ b/src/modifiers/delay.rs
@@ -45,7 +45,7 @@ impl Clone for Delay {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index cfba8e0..6c77e6a 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -43,7 +43,7 @@ impl Clone for Echo {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
-- 
2.43.0


From 96bc8f2b9e90844f9631918f6a41c150690018c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 18/29] fix: Echo panicked for durations shorter than one
 sample

---
 src/modifiers/echo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index 6c77e6a..cfcb39b 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -17,7 +17,8 @@ impl Echo {
     /// [`Echo`]: struct.Echo.html
     pub fn new(d: Duration, g: MathT) -> Self{
         let mut v = VecDeque::new();
-        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT) as usize) {
+        // The feedback needs a delay of at least one sample.
+        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT) as usize).max(1) {
             v.push_back(SampleT::default());
         }
 
-- 
2.43.0


From c1c0b5785e09af384e102ade9f62e591275e2045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 19/29] fix: Generic panicked unless its taps were listed in
 ascending order

---
 src/modifiers/generic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/generic.rs b/src/modifiers/generic.rs
index 87d4e8d..1162f12 100644
--- a/src/modifiers/generic.rs
+++ b/src/modifiers/generic.rs
@@ -29,12 +29,12 @@ pub struct Generic {
 impl Generic {
     /// Creates a new Generic filter from the given pole and zero parameters.
     pub fn new(zeros: Zeros, poles: Poles) -> Generic {
-        let z_back = if let Some(z) = zeros.back() {
+        let z_back = if let Some(z) = zeros.iter().max_by_key(|z| z.0) {
             z.0 + 1
         } else {
             0
         };
-        let p_back = if let Some(p) = poles.back() {
+        let p_back = if let Some(p) = poles.iter().max_by_key(|p| p.0) {
             p.0 + 1
         } else {
             0
-- 
2.43.0


From b10a44d0881b02d1017abbf961a6c07e4727dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:20 +0000
Subject: [PATCH 20/29] fix: LowPass and HighPass blew up or leaked at low
 cutoffs for lack of precision

---
 src/modifiers/highpass.rs | 83 ++++++++++++++++++++-------------------
 src/modifiers/lowpass.rs  | 20 +++++-----
 2 files changed, 52 insertions(+), 51 deletions(-)

diff --git a/src/modifiers/highpass.rs b/src/modifiers/highpass.rs
index 599ffcb..75f0b93 100644
--- a/src/modifiers/highpass.rs
+++ b/src/modifiers/highpass.rs
@@ -8,20 +8,20 @@ use super::*;
 /// High pass filter adapted from the 3rd Order Butterworth Low Pass Filter with
 /// resonance.
 pub struct HighPass {
-    a0: SampleT,
-    a1: SampleT,
-    a2: SampleT,
-    a3: SampleT,
-    b1: SampleT,
-    b2: SampleT,
-    b3: SampleT,
-
-    x1: SampleT,
-    x2: SampleT,
-    x3: SampleT,
-    y1: SampleT,
-    y2: SampleT,
-    y3: SampleT,
+    a0: MathT,
+    a1: MathT,
+    a2: MathT,
+    a3: MathT,
+    b1: MathT,
+    b2: MathT,
+    b3: MathT,
+
+    x1: MathT,
+    x2: MathT,
+    x3: MathT,
+    y1: MathT,
+    y2: MathT,
+    y3: MathT,
 
     fc: MathT,
     r: MathT
@@ -40,19 +40,19 @@ impl HighPass {
         let fc = fc.min(SAMPLE_RATE as MathT / 2.0);
         let r = r.min(1.0).max(0.0);
         let mut hp = HighPass {
-            a0: SampleT::default(),
-            a1: SampleT::default(),
-            a2: SampleT::default(),
-            a3: SampleT::default(),
-            b1: SampleT::default(),
-            b2: SampleT::default(),
-            b3: SampleT::default(),
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            a0: MathT::default(),
+            a1: MathT::default(),
+            a2: MathT::default(),
+            a3: MathT::default(),
+            b1: MathT::default(),
+            b2: MathT::default(),
+            b3: MathT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            x3: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc,
             r,
         };
@@ -95,19 +95,20 @@ impl HighPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.a0 = ( 1.0/g) as SampleT;
-        self.a1 = (-3.0/g) as SampleT;
-        self.a2 = ( 3.0/g) as SampleT;
-        self.a3 = (-1.0/g) as SampleT;
+        self.a0 = 1.0/g;
+        self.a1 = -3.0/g;
+        self.a2 = 3.0/g;
+        self.a3 = -1.0/g;
 
-        self.b1 = ((k*t.powf(2.0) + 2.0*k*t + 3.0)/g) as SampleT;
-        self.b2 = ((-k*t - 3.0)/g) as SampleT;
-        self.b3 = (1.0/g) as SampleT;
+        self.b1 = (k*t.powf(2.0) + 2.0*k*t + 3.0)/g;
+        self.b2 = (-k*t - 3.0)/g;
+        self.b3 = 1.0/g;
     }
 }
 
 impl Modifier for HighPass {
     fn process(&mut self, x: SampleT) -> SampleT {
+        let x = x as MathT;
         let y = self.a0*x + self.a1*self.x1 + self.a2*self.x2 + self.a3*self.x3 +
             self.b1*self.y1 + self.b2*self.y2 + self.b3*self.y3;
 
@@ -118,7 +119,7 @@ impl Modifier for HighPass {
         self.y2 = self.y1;
         self.y1 = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -132,12 +133,12 @@ impl Clone for HighPass {
             b1: self.b1,
             b2: self.b2,
             b3: self.b3,
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            x3: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc: self.fc,
             r: self.r,
         }
diff --git a/src/modifiers/lowpass.rs b/src/modifiers/lowpass.rs
index 3810279..44cf4f8 100644
--- a/src/modifiers/lowpass.rs
+++ b/src/modifiers/lowpass.rs
@@ -9,8 +9,8 @@ use super::*;
 pub struct LowPass {
     fc: MathT,
     r: MathT,
-    coeff: [SampleT; 4],
-    outs: [SampleT; 3]
+    coeff: [MathT; 4],
+    outs: [MathT; 3]
 }
 
 impl LowPass {
@@ -30,7 +30,7 @@ impl LowPass {
             fc,
             r,
             coeff: [0.0; 4],
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         };
 
         lp.reset();
@@ -71,16 +71,16 @@ impl LowPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.coeff[0] = (t.powf(3.0) / g) as SampleT;
-        self.coeff[1] = ((k*t.powf(2.0) + 2.0*k*t + 3.0) / g) as SampleT;
-        self.coeff[2] = ((-k*t - 3.0) / g) as SampleT;
-        self.coeff[3] = (1.0 / g) as SampleT;
+        self.coeff[0] = t.powf(3.0) / g;
+        self.coeff[1] = (k*t.powf(2.0) + 2.0*k*t + 3.0) / g;
+        self.coeff[2] = (-k*t - 3.0) / g;
+        self.coeff[3] = 1.0 / g;
     }
 }
 
 impl Modifier for LowPass {
     fn process(&mut self, x: SampleT) -> SampleT {
-        let y = self.coeff[0]*x +
+        let y = self.coeff[0]*x as MathT +
                 self.coeff[1]*self.outs[0] +
                 self.coeff[2]*self.outs[1] +
                 self.coeff[3]*self.outs[2];
@@ -89,7 +89,7 @@ impl Modifier for LowPass {
         self.outs[1] = self.outs[0];
         self.outs[0] = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -99,7 +99,7 @@ impl Clone for LowPass {
             fc: self.fc,
             r: self.r,
             coeff: self.coeff,
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         }
     }
 }
-- 
2.43.0


From 796935d9bb3913f04415cfe90e628daf7af54c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:47 +0000
Subject: [PATCH 21/29] fix: ADSR put out NaN for empty stages and missed the
 length of long ones

---
 src/modifiers/adsr.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index a94f6dd..8d5360e 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -22,12 +22,12 @@ pub enum ADSRState {
 /// 
 /// Creates a simple envelope for the given signal.
 pub struct ADSR {
-    a:SampleT,
-    d:SampleT,
-    s:SampleT,
-    r:SampleT,
+    a:MathT,
+    d:MathT,
+    s:MathT,
+    r:MathT,
     state:ADSRState,
-    g:SampleT,
+    g:MathT,
 }
 
 impl ADSR {
@@ -40,12 +40,14 @@ impl ADSR {
     /// * `s` - Sustain level in decibels. Value is clamped to be less than 0.
     /// * `r` - Release time.
     pub fn new(a:Duration,d:Duration,s:MathT,r:Duration) -> Self {
-        let s = s.min(0.0);
+        let s = db_to_linear(s.min(0.0));
+        // Every stage takes at least one sample.
+        let samples = |t: Duration| (t.as_secs_f64() * SAMPLE_RATE as MathT).max(1.0);
         ADSR {
-            a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT) as SampleT,
-            d: ((db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
-            s: db_to_linear(s) as SampleT,
-            r: ((-db_to_linear(s))/(r.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
+            a: 1.0/samples(a),
+            d: (s-1.0)/samples(d),
+            s,
+            r: -s/samples(r),
             state: ADSRState::Attack,
             g: 0.0
         }
@@ -86,7 +88,7 @@ impl Modifier for ADSR {
             ADSRState::Stopped => return SampleT::default(),
         }
 
-        x * self.g
+        x * self.g as SampleT
     }
 }
 
-- 
2.43.0


From 42367c2a4d53c4e7d66cae3c2e2a74438643cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:47 +0000
Subject: [PATCH 22/29] fix: ADSR released before reaching sustain outlasted
 its release time, even for ever

---
 src/modifiers/adsr.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index 8d5360e..1d67d99 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -26,6 +26,7 @@ pub struct ADSR {
     d:MathT,
     s:MathT,
     r:MathT,
+    r_samples:MathT,
     state:ADSRState,
     g:MathT,
 }
@@ -47,7 +48,8 @@ impl ADSR {
             a: 1.0/samples(a),
             d: (s-1.0)/samples(d),
             s,
-            r: -s/samples(r),
+            r: 0.0,
+            r_samples: samples(r),
             state: ADSRState::Attack,
             g: 0.0
         }
@@ -55,7 +57,14 @@ impl ADSR {
 
     /// Changes adsr state to release
     pub fn release(&mut self) {
-        self.state = ADSRState::Release;
+        match self.state {
+            ADSRState::Release | ADSRState::Stopped => (),
+            _ => {
+                // The level depends on the stage being left.
+                self.r = -self.g/self.r_samples;
+                self.state = ADSRState::Release;
+            }
+        }
     }
 }
 
@@ -99,6 +108,7 @@ impl Clone for ADSR {
             d: self.d,
             s: self.s,
             r: self.r,
+            r_samples: self.r_samples,
             state: ADSRState::Attack,
             g: 0.0
         }
-- 
2.43.0


From 82fa7de9920c42bd947e1a46a4c541c9c43da10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:31 +0000
Subject: [PATCH 23/29] fix: ComplexSound dropped blocks, or ran them before
 the blocks feeding them

---
 src/sounds/complex_sound.rs | 52 +++++++++++++++----------------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index 312cd87..3dfb373 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -11,6 +11,7 @@ use super::*;
 use std::sync::Arc;
 use std::collections::VecDeque;
 use petgraph::graph;
+use petgraph::visit::{DfsPostOrder, EdgeFiltered, EdgeRef};
 
 /// Alias for the graph type used by [`ComplexSound`].
 /// 
@@ -132,50 +133,39 @@ impl ComplexSound {
     }
 
     /// Processes the graph and constructs the order to process the
-    /// [`GraphNode`]s.
+    /// [`GraphNode`]s. Every node comes after the nodes connected to it, except
+    /// for the connections closing a cycle.
     /// 
     /// [`GraphNode`]: type.GraphNode.html
     fn process_order(&mut self) {
-        self.process_order.clear();
+        let ig = self.input_gain;
+        let og = self.output_gain;
 
-        self.process_order.extend(self.graph.externals(petgraph::Direction::Incoming));
-        let mut i = 0;
-        while i < self.process_order.len() {
-            let neighbors = self.graph.neighbors(self.process_order[i]);
-            self.process_order.extend(neighbors);
+        // As the input is always first and the output always last, connections
+        // into the input and out of the output can only be feedback.
+        let forward = EdgeFiltered::from_fn(&self.graph, |e| e.target() != ig && e.source() != og);
+        let mut visitor = DfsPostOrder::empty(&forward);
 
-            let mut j = 0;
-            while j < i {
-                Self::remove_dups(&mut self.process_order, j);
-                j += 1;
-            }
+        // Blocks within cycles aren't necessarily reachable from the outside,
+        // so all nodes are tried in the end.
+        let starts = std::iter::once(ig)
+            .chain(self.graph.externals(petgraph::Direction::Incoming))
+            .chain(self.graph.node_indices());
 
-            i += 1;
-        }
+        self.process_order.clear();
 
-        let ig = self.input_gain;
-        let og = self.output_gain;
+        for start in starts {
+            visitor.move_to(start);
+            while let Some(n) = visitor.next(&forward) {
+                self.process_order.push_front(n);
+            }
+        }
 
         self.process_order.retain(|e| *e != ig && *e != og);
 
         self.process_order.push_front(self.input_gain);
         self.process_order.push_back(self.output_gain);
     }
-
-    /// Removes duplicate [`GraphNode`]s from the process order to prevent parsing cycles
-    /// 
-    /// [`GraphNode`]: type.GraphNode.html
-    fn remove_dups(v: &mut ProcessOrder, whitelist: usize) {
-        let mut i = whitelist + 1;
-
-        while i < v.len() {
-            if v[i] == v[whitelist] {
-                v.remove(i);
-            } else {
-                i += 1;
-            }
-        }
-    }
 }
 
 impl Sound for ComplexSound {
-- 
2.43.0


From 868444105c7559ed3a9eb557c2bd3ba3a8e85a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:31 +0000
Subject: [PATCH 24/29] fix: ComplexSound saved up the input given before its
 first connection

---
 src/sounds/complex_sound.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index 3dfb373..1e9c458 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -67,7 +67,7 @@ impl ComplexSound {
             )
         );
 
-        ComplexSound {
+        let mut cs = ComplexSound {
             graph,
             process_order: ProcessOrder::new(),
             input_gain,
@@ -75,7 +75,11 @@ impl ComplexSound {
             id: None,
             is_muted: false,
             is_paused: false
-        }
+        };
+
+        cs.process_order();
+
+        cs
     }
 
     /// Returns the ['GraphNode'] containing the input gain [`Modifier`].
-- 
2.43.0


From 70daec439f0cb6a83135380835e39f342edd1d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:31 +0000
Subject: [PATCH 25/29] fix: StandardChannel never produced any output

---
 src/channels/standard_channel.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 0b0a1dd..f693894 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -29,12 +29,16 @@ impl<SF> StandardChannel<SF>
     /// 
     /// [`set_process_time`]: ../trait.Channel.html#tymethod.set_process_time
     pub fn new(gain: MathT) -> Self {
-        StandardChannel {
-            output: Vec::with_capacity((0.01 * SAMPLE_RATE as MathT) as usize),
+        let mut channel = StandardChannel {
+            output: Vec::new(),
             sounds: HashMap::new(),
             gain: gain as SampleT,
             id_counter: 0
-        }
+        };
+
+        channel.set_process_time(Duration::from_millis(10));
+
+        channel
     }
 
     fn get_id(&mut self) -> usize {
@@ -50,7 +54,8 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     where SF: SampleFormat
 {
     fn set_process_time(&mut self, d: Duration) {
-        self.output = Vec::with_capacity((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize);
+        self.output.clear();
+        self.output.resize_with((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize, SF::default);
     }
 
     fn get_output(&self) -> &Vec<SF> {
@@ -62,11 +67,14 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     }
 
     fn process(&mut self) {
-        self.output.resize_with(self.output.len(), SF::default);
-
         for sample in &mut self.output {
-            for mut sound in &mut self.sounds {
-                *sample += SF::from_sample(Arc::get_mut(&mut sound.1).unwrap().process(Default::default()));
+            *sample = SF::default();
+
+            for sound in self.sounds.values_mut() {
+                // Sounds that are still shared can't be processed.
+                if let Some(sound) = Arc::get_mut(sound) {
+                    *sample += SF::from_sample(sound.process(Default::default()));
+                }
             }
 
             *sample *= self.gain;
-- 
2.43.0


From 3ce9ee2dda20fb87e0bcc0601afcc6d496a455bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:31 +0000
Subject: [PATCH 26/29] fix: bin2str wrote a table that isn't valid Rust

---
 utility/bin2str/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utility/bin2str/src/main.rs b/utility/bin2str/src/main.rs
index 69edf81..d9a3dd7 100644
--- a/utility/bin2str/src/main.rs
+++ b/utility/bin2str/src/main.rs
@@ -53,11 +53,11 @@ fn main() -> std::io::Result<()> {
         let mut inp_file: File = File::open(Path::new(a.as_str()))?;
 
         let mut binstr = convert_file(&mut inp_file)?;
-        binstr.insert_str(0, "pub static wav: [u8;_] = [\n");
+        binstr.insert_str(0, "pub static wav: &[u8] = &[\n");
         binstr.push_str("\n];\n");
 
         let mut out_file = std::fs::File::create("output.rs")?;
-        out_file.write(binstr.as_bytes())?;
+        out_file.write_all(binstr.as_bytes())?;
     // }
 
     Ok(())
-- 
2.43.0


From dc920f93a22b192cc95f25ffa7d572c03af94f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:34 +0000
Subject: [PATCH 27/29] fix: BandPass got stuck or far off at low corners for
 lack of precision

---
 src/modifiers/bandpass.rs | 41 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/modifiers/bandpass.rs b/src/modifiers/bandpass.rs
index 3040ebe..7707111 100644
--- a/src/modifiers/bandpass.rs
+++ b/src/modifiers/bandpass.rs
@@ -9,10 +9,10 @@ pub struct BandPass {
     a0: MathT,
     b1: MathT,
     b2: MathT,
-    x1: SampleT,
-    x2: SampleT,
-    y1: SampleT,
-    y2: SampleT,
+    x1: MathT,
+    x2: MathT,
+    y1: MathT,
+    y2: MathT,
 }
 
 impl BandPass {
@@ -28,10 +28,10 @@ impl BandPass {
             a0: 0.0,
             b1: 0.0,
             b2: 0.0,
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
         };
 
         bp.reset();
@@ -47,10 +47,10 @@ impl BandPass {
             a0: 0.0,
             b1: 0.0,
             b2: 0.0,
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
         };
 
         bp.reset();
@@ -132,16 +132,17 @@ impl BandPass {
 
 impl Modifier for BandPass {
     fn process(&mut self, x: SampleT) -> SampleT {
-        let y = (self.a0 * (x - self.x2) as MathT +
-            self.b1 * self.y1 as MathT - 
-            self.b2 * self.y2 as MathT) as SampleT;
+        let x = x as MathT;
+        let y = self.a0 * (x - self.x2) +
+            self.b1 * self.y1 -
+            self.b2 * self.y2;
 
         self.y2 = self.y1;
         self.y1 = y;
         self.x2 = self.x1;
         self.x1 = x;
 
-        y
+        y as SampleT
     }
 }
 
@@ -160,10 +161,10 @@ impl Clone for BandPass {
             a0: self.a0,
             b1: self.b1,
             b2: self.b2,
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
         }
     }
 }
-- 
2.43.0


From 312f37006374aa516130c4ee160daf9f3ff83a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:21 +0000
Subject: [PATCH 28/29] fix: MonoResampler blended in a sample too far, or
 panicked, just below whole positions

---
 src/utils/mono_resampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 97ae9ee..18fb465 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -69,7 +69,7 @@ impl MonoResampler {
         } else if self.ind.trunc() as usize + 1 >= self.data.len() {
             self.data[self.ind.trunc() as usize].into_sample()
         } else {
-            self.data[(self.ind + 1.0).trunc() as usize].into_sample()
+            self.data[self.ind.trunc() as usize + 1].into_sample()
         };
 
         let x1: SampleT = self.data[self.ind.trunc() as usize].into_sample();
-- 
2.43.0


From 6e4628dd21836c5ae3ce9432e6d08ad16a176425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:35 +0000
Subject: [PATCH 29/29] fix: reading a damaged WAV panicked or hung, and audio
 had to be the second chunk

---
 src/utils/mod.rs | 70 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 69 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index b5eb132..11d6be7 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -88,6 +88,74 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
     }
 }
 
+/// Reads a WAV file from the given source and puts its format and data chunks
+/// together to a file of just these, in this order. The wav crate panics on
+/// damaged files and only finds the audio in the second chunk of the file.
+fn read_chunks(s: &mut dyn std::io::Read) -> std::io::Result<Vec<u8>> {
+    use std::io::{Error, ErrorKind, Read};
+
+    fn read_word(s: &mut dyn Read) -> std::io::Result<[u8; 4]> {
+        let mut w = [0; 4];
+        s.read_exact(&mut w)?;
+        Ok(w)
+    }
+
+    let err = |m| Err(Error::new(ErrorKind::InvalidData, m));
+
+    let riff = read_word(s)?;
+    let size = u32::from_le_bytes(read_word(s)?) as u64;
+
+    if &riff != b"RIFF" || &read_word(s)? != b"WAVE" {
+        return err("File not a WAVE file");
+    }
+
+    let (mut fmt, mut data) = (Vec::new(), None);
+    let mut count = 4;
+
+    while count < size {
+        let id = read_word(s)?;
+        let len = u32::from_le_bytes(read_word(s)?) as u64;
+
+        // Chunks of odd length are followed by a padding byte.
+        let mut v = Vec::new();
+        if (&mut *s).take(len + len % 2).read_to_end(&mut v)? as u64 != len + len % 2 {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
+        v.truncate(len as usize);
+        count += len + len % 2 + 8;
+
+        match &id {
+            b"fmt " => fmt = v,
+            b"data" => data = Some(v),
+            _ => (),
+        }
+    }
+
+    let data = match data {
+        Some(d) if fmt.len() >= 16 => d,
+        _ => return err("Format or data chunk missing"),
+    };
+
+    let h = wav::Header::from(fmt.as_slice());
+    let frame = h.channel_count as usize * (h.bits_per_sample as usize / 8);
+
+    if frame == 0 || data.len() % frame != 0 || data.len() > u32::max_value() as usize - 64 {
+        return err("Audio data doesn't consist of whole frames");
+    }
+
+    let mut f = Vec::with_capacity(data.len() + 45);
+    f.extend_from_slice(b"RIFF");
+    f.extend_from_slice(&((data.len() + data.len() % 2 + 36) as u32).to_le_bytes());
+    f.extend_from_slice(b"WAVEfmt \x10\0\0\0");
+    f.extend_from_slice(&fmt[0..16]);
+    f.extend_from_slice(b"data");
+    f.extend_from_slice(&(data.len() as u32).to_le_bytes());
+    f.extend_from_slice(&data);
+    f.resize(f.len() + data.len() % 2, 0);
+
+    Ok(f)
+}
+
 /// Takes the given path and reads the track data from the WAV file at the given
 /// location.
 /// 
@@ -107,7 +175,7 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
 /// [`TrackT`]: ../../type.TrackT.html
 /// [`wav::read_wav`]: https://docs.rs/wav/0.1.1/wav/fn.read_wav.html
 pub fn read_wav(s: &mut dyn std::io::Read) -> std::io::Result<(wav::Header, Vec<SampleTrackT>)> {
-    let (h, bd) = wav::read_wav(s)?;
+    let (h, bd) = wav::read_wav(&mut read_chunks(s)?.as_slice())?;
 
     if h.channel_count == 0 {
         return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "No channels in file, aborting."));
-- 
2.43.0

