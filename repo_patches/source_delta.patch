From 07baff14387a62a801d90d01330a8a42444a3d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 01/33] fix: istft checks every frame before modifying any
 buffer

---
 src/stft.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index d91b192..50f1efb 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -129,15 +129,17 @@ pub fn istft<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     let win_len = window.len();
+    for frame in frames.iter() {
+        if frame.len() != win_len {
+            return Err(FftError::MismatchedLengths);
+        }
+    }
     for x in scratch.iter_mut() {
         *x = 0.0;
     }
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
         let start = frame_idx * hop_size;
-        if frame.len() != win_len {
-            return Err(FftError::MismatchedLengths);
-        }
         fft.ifft(frame)?;
         for i in 0..win_len {
             if start + i < output.len() {
-- 
2.43.0


From 8f1ac72042738666d8e23ee12522a1ab08dfc724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 02/33] fix: single-frame and parallel STFT calls report a
 wrong frame length instead of panicking

---
 src/stft.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 50f1efb..71f078c 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -304,6 +304,11 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
     let win_len = window.len();
     type Accum = (usize, alloc::vec::Vec<f32>, alloc::vec::Vec<f32>);
     type AccumResult = Result<alloc::vec::Vec<Accum>, FftError>;
+    for frame in frames.iter() {
+        if frame.len() != win_len {
+            return Err(FftError::MismatchedLengths);
+        }
+    }
     let partials: AccumResult = frames
         .par_iter()
         .enumerate()
@@ -362,6 +367,9 @@ pub fn frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame_out.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     for i in 0..win_len {
         let x = if start + i < signal.len() {
             signal[start + i] * window[i]
@@ -391,6 +399,9 @@ pub fn inverse_frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     fft.ifft(frame)?;
     for i in 0..win_len {
         if start + i < output.len() {
-- 
2.43.0


From 995f13f201adbe6c052dc971f0bd36b57c1f033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 03/33] fix: parallel STFT rejects an output that cannot hold
 every frame, like the batch form

---
 src/stft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 71f078c..b4dc2b2 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -244,6 +244,9 @@ pub fn parallel<Fft: FftImpl<f32>>(
     if hop_size == 0 {
         return Err(FftError::InvalidHopSize);
     }
+    if output.len() < signal.len().div_ceil(hop_size) {
+        return Err(FftError::MismatchedLengths);
+    }
     let win_len = window.len();
     output
         .par_iter_mut()
-- 
2.43.0


From 45a6133f264547e316575b323a4bf1c4c93d9fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 04/33] fix: inverse STFT no longer mixes the previous contents
 of the output into the result

---
 src/stft.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index b4dc2b2..9bf7749 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -134,6 +134,9 @@ pub fn istft<Fft: FftImpl<f32>>(
             return Err(FftError::MismatchedLengths);
         }
     }
+    for x in output.iter_mut() {
+        *x = 0.0;
+    }
     for x in scratch.iter_mut() {
         *x = 0.0;
     }
@@ -332,6 +335,9 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         })
         .collect();
     let partials = partials?;
+    for x in output.iter_mut() {
+        *x = 0.0;
+    }
     let mut norm = alloc::vec::Vec::with_capacity(output.len());
     norm.resize(output.len(), 0.0);
     for (start, acc_frame, norm_frame) in partials {
-- 
2.43.0


From 8ca29aecd990b68626bb3d50c7a6bfce1d910827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 05/33] fix: IstftStream::new rejects a window of another
 length instead of panicking later

---
 src/stft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 9bf7749..d082c7f 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -450,6 +450,9 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         if hop == 0 {
             return Err(FftError::InvalidHopSize);
         }
+        if window.len() != win_len {
+            return Err(FftError::MismatchedLengths);
+        }
         let buffer = vec![0.0f32; win_len + hop * 2];
         let norm_buf = vec![0.0f32; win_len + hop * 2];
         let time_buf = vec![crate::fft::Complex32::new(0.0, 0.0); win_len];
-- 
2.43.0


From b0c2fa623ebf2d1e22d6b426f4e3b9b40720a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 06/33] fix: IstftStream extends its buffer for hops longer
 than the window

---
 src/stft.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index d082c7f..eab99a7 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -503,9 +503,10 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         self.out_pos += self.hop;
         self.buf_pos += self.hop;
         // Zero the region that will be written next time
-        if self.buf_pos + self.win_len > self.buffer.len() {
+        // (the next output chunk reaches past the window when `hop > win_len`)
+        if self.buf_pos + self.win_len.max(self.hop) > self.buffer.len() {
             // Extend buffer if needed
-            let new_len = self.buf_pos + self.win_len;
+            let new_len = self.buf_pos + self.win_len.max(self.hop);
             self.buffer.resize(new_len, 0.0);
             self.norm_buf.resize(new_len, 0.0);
         }
-- 
2.43.0


From 609c3e38f3743e9a02c9ed87f78319e7b8191610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 07/33] fix: STFT frame positions saturate instead of
 overflowing for huge hops and starts

---
 src/stft.rs | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index eab99a7..d2d7dee 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -89,11 +89,12 @@ pub fn stft<Fft: FftImpl<f32>>(
     }
     let win_len = window.len();
     for (frame_idx, frame) in output.iter_mut().enumerate() {
-        let start = frame_idx * hop_size;
+        let start = frame_idx.saturating_mul(hop_size);
         frame.resize(win_len, Complex32::new(0.0, 0.0));
         for i in 0..win_len {
-            let x = if start + i < signal.len() {
-                signal[start + i] * window[i]
+            let idx = start.saturating_add(i);
+            let x = if idx < signal.len() {
+                signal[idx] * window[i]
             } else {
                 0.0
             };
@@ -142,12 +143,13 @@ pub fn istft<Fft: FftImpl<f32>>(
     }
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
-        let start = frame_idx * hop_size;
+        let start = frame_idx.saturating_mul(hop_size);
         fft.ifft(frame)?;
         for i in 0..win_len {
-            if start + i < output.len() {
-                output[start + i] += frame[i].re * window[i];
-                scratch[start + i] += window[i] * window[i];
+            let idx = start.saturating_add(i);
+            if idx < output.len() {
+                output[idx] += frame[i].re * window[i];
+                scratch[idx] += window[i] * window[i];
             }
         }
     }
@@ -205,7 +207,7 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> StftStream<'a, Fft> {
             *out_i = Complex32::new(x, 0.0);
         }
         self.fft.fft(out)?;
-        self.pos += self.hop_size;
+        self.pos = self.pos.saturating_add(self.hop_size);
         Ok(true)
     }
 }
@@ -255,11 +257,12 @@ pub fn parallel<Fft: FftImpl<f32>>(
         .par_iter_mut()
         .enumerate()
         .try_for_each(|(frame_idx, frame)| {
-            let start = frame_idx * hop_size;
+            let start = frame_idx.saturating_mul(hop_size);
             frame.clear();
             for i in 0..win_len {
-                let x = if start + i < signal.len() {
-                    signal[start + i] * window[i]
+                let idx = start.saturating_add(i);
+                let x = if idx < signal.len() {
+                    signal[idx] * window[i]
                 } else {
                     0.0
                 };
@@ -319,7 +322,7 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         .par_iter()
         .enumerate()
         .map(|(frame_idx, frame)| {
-            let start = frame_idx * hop_size;
+            let start = frame_idx.saturating_mul(hop_size);
             let mut time_buf = frame.clone();
             let fft_local = ScalarFftImpl::<f32>::default();
             fft_local.ifft(&mut time_buf)?;
@@ -342,9 +345,10 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
     norm.resize(output.len(), 0.0);
     for (start, acc_frame, norm_frame) in partials {
         for i in 0..win_len {
-            if start + i < output.len() {
-                output[start + i] += acc_frame[i];
-                norm[start + i] += norm_frame[i];
+            let idx = start.saturating_add(i);
+            if idx < output.len() {
+                output[idx] += acc_frame[i];
+                norm[idx] += norm_frame[i];
             }
         }
     }
@@ -380,8 +384,9 @@ pub fn frame<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     for i in 0..win_len {
-        let x = if start + i < signal.len() {
-            signal[start + i] * window[i]
+        let idx = start.saturating_add(i);
+        let x = if idx < signal.len() {
+            signal[idx] * window[i]
         } else {
             0.0
         };
@@ -413,8 +418,9 @@ pub fn inverse_frame<Fft: FftImpl<f32>>(
     }
     fft.ifft(frame)?;
     for i in 0..win_len {
-        if start + i < output.len() {
-            output[start + i] += frame[i].re * window[i];
+        let idx = start.saturating_add(i);
+        if idx < output.len() {
+            output[idx] += frame[i].re * window[i];
         }
     }
     Ok(())
@@ -503,7 +509,7 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         self.out_pos += self.hop;
         self.buf_pos += self.hop;
         // Zero the region that will be written next time
-        // (the next output chunk reaches past the window when `hop > win_len`)
+        // (the next output chunk may reach past the window when `hop > win_len`)
         if self.buf_pos + self.win_len.max(self.hop) > self.buffer.len() {
             // Extend buffer if needed
             let new_len = self.buf_pos + self.win_len.max(self.hop);
-- 
2.43.0


From 596077d1bece9f974e006470d5f9ab8486be946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 08/33] fix: Stockham FFT of a single sample is the identity
 instead of a panic

---
 src/fft.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft.rs b/src/fft.rs
index 250a04a..729647c 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -654,6 +654,7 @@ impl<T: Float> ScalarFftImpl<T> {
         }
         if n <= 16 {
             match n {
+                1 => {}
                 2 => fft2(input),
                 4 => fft4(input),
                 8 => fft8(input),
-- 
2.43.0


From 55e7c42ca15bfb200bd73902fcbe3c812beb0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 09/33] fix: Stockham FFT transforms only the n samples of a
 longer recycled split buffer

---
 src/fft.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 729647c..ffd7c7a 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -686,8 +686,8 @@ impl<T: Float> ScalarFftImpl<T> {
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
             let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };
-            let re32 = unsafe { &mut *(split_re.as_mut_slice() as *mut [T] as *mut [f32]) };
-            let im32 = unsafe { &mut *(split_im.as_mut_slice() as *mut [T] as *mut [f32]) };
+            let re32 = unsafe { &mut *(&mut split_re[..n] as *mut [T] as *mut [f32]) };
+            let im32 = unsafe { &mut *(&mut split_im[..n] as *mut [T] as *mut [f32]) };
             for (c, (r, i)) in input32.iter().zip(re32.iter_mut().zip(im32.iter_mut())) {
                 *r = c.re;
                 *i = c.im;
@@ -708,8 +708,8 @@ impl<T: Float> ScalarFftImpl<T> {
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f64>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f64>) };
             let input64 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex64]) };
-            let re64 = unsafe { &mut *(split_re.as_mut_slice() as *mut [T] as *mut [f64]) };
-            let im64 = unsafe { &mut *(split_im.as_mut_slice() as *mut [T] as *mut [f64]) };
+            let re64 = unsafe { &mut *(&mut split_re[..n] as *mut [T] as *mut [f64]) };
+            let im64 = unsafe { &mut *(&mut split_im[..n] as *mut [T] as *mut [f64]) };
             for (c, (r, i)) in input64.iter().zip(re64.iter_mut().zip(im64.iter_mut())) {
                 *r = c.re;
                 *i = c.im;
-- 
2.43.0


From 4174e0d6fce8800d68fffc8f9fcfcc80ae44082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 10/33] fix: Bluestein FFT convolves only the m samples of a
 longer recycled scratch buffer

---
 src/fft.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index ffd7c7a..b2f2693 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1106,19 +1106,19 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             for v in &mut a[n..m] {
                 *v = Complex::zero();
             }
-            self.fft(&mut a)?;
-            for (ai, &bi) in a.iter_mut().zip(fft_b.iter()) {
+            self.fft(&mut a[..m])?;
+            for (ai, &bi) in a[..m].iter_mut().zip(fft_b.iter()) {
                 *ai = ai.mul(bi);
             }
-            for c in a.iter_mut() {
+            for c in a[..m].iter_mut() {
                 c.im = -c.im;
             }
-            self.fft(&mut a)?;
-            for c in a.iter_mut() {
+            self.fft(&mut a[..m])?;
+            for c in a[..m].iter_mut() {
                 c.im = -c.im;
             }
             let scale = T::one() / T::from_f32(m as f32);
-            for c in a.iter_mut() {
+            for c in a[..m].iter_mut() {
                 c.re = c.re * scale;
                 c.im = c.im * scale;
             }
-- 
2.43.0


From debf6fd04f7dfbce0b57997a272ce7c0fede4518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 11/33] fix: radix-4 FFT reorders its input by base-4 digit
 reversal

---
 src/fft.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index b2f2693..313c9a2 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1459,15 +1459,17 @@ impl<T: Float> ScalarFftImpl<T> {
             // Fallback to generic FFT if not power of four
             return self.fft(input);
         }
-        // Bit-reversal for radix-4
+        // Digit reversal for radix-4
         let mut j = 0usize;
         for i in 1..n {
-            let mut bit = n >> 2;
-            while j & bit != 0 {
-                j ^= bit;
-                bit >>= 2;
+            // Add one to the base-4 digit-reversed counter, most significant
+            // digit first, carrying out of every digit that is already 3.
+            let mut digit = n >> 2;
+            while digit > 0 && j >= 3 * digit {
+                j -= 3 * digit;
+                digit >>= 2;
             }
-            j ^= bit;
+            j += digit;
             if i < j {
                 input.swap(i, j);
             }
-- 
2.43.0


From 346e92009a0197334de4241a3c1064d24870af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 12/33] fix: mixed-radix FFT with twiddles rejects empty input
 instead of looping forever

---
 src/fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 313c9a2..18c5245 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1668,6 +1668,9 @@ impl ScalarFftImpl<f32> {
         twiddles: &TwiddleFactorBuffer,
     ) -> Result<(), FftError> {
         let n = input.len();
+        if n == 0 {
+            return Err(FftError::EmptyInput);
+        }
         let factors = factorize(n);
         if factors.iter().all(|&f| f == 2 || f == 4) {
             if factors.iter().all(|&f| f == 4) {
-- 
2.43.0


From b4ec1ceea7ef90eeb6ed09df08ff32b13e37ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 13/33] fix: default strided FFT wrappers zero their scratch
 instead of exposing uninitialised memory

---
 src/fft.rs | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 18c5245..fa82845 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -21,7 +21,6 @@ use core::arch::aarch64::*;
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::*;
 use core::cell::UnsafeCell;
-use core::mem::MaybeUninit;
 use hashbrown::HashMap;
 
 #[cfg(feature = "precomputed-twiddles")]
@@ -529,28 +528,14 @@ pub trait FftImpl<T: Float>: Any {
     /// Convenience wrapper that allocates a scratch buffer internally for [`fft_strided`].
     fn fft_strided_alloc(&self, input: &mut [Complex<T>], stride: usize) -> Result<(), FftError> {
         let n = if stride == 0 { 0 } else { input.len() / stride };
-        let mut scratch: Vec<MaybeUninit<Complex<T>>> = alloc::vec::Vec::with_capacity(n);
-        // SAFETY: The scratch buffer is uninitialized, but `fft_strided` treats it
-        // purely as workspace and writes to every element before any read.
-        unsafe {
-            scratch.set_len(n);
-            let scratch_slice =
-                core::slice::from_raw_parts_mut(scratch.as_mut_ptr() as *mut Complex<T>, n);
-            self.fft_strided(input, stride, scratch_slice)
-        }
+        let mut scratch = alloc::vec![Complex::<T>::zero(); n];
+        self.fft_strided(input, stride, &mut scratch)
     }
     /// Convenience wrapper that allocates a scratch buffer internally for [`ifft_strided`].
     fn ifft_strided_alloc(&self, input: &mut [Complex<T>], stride: usize) -> Result<(), FftError> {
         let n = if stride == 0 { 0 } else { input.len() / stride };
-        let mut scratch: Vec<MaybeUninit<Complex<T>>> = alloc::vec::Vec::with_capacity(n);
-        // SAFETY: The scratch buffer is uninitialized, but `ifft_strided` treats it
-        // purely as workspace and writes to every element before any read.
-        unsafe {
-            scratch.set_len(n);
-            let scratch_slice =
-                core::slice::from_raw_parts_mut(scratch.as_mut_ptr() as *mut Complex<T>, n);
-            self.ifft_strided(input, stride, scratch_slice)
-        }
+        let mut scratch = alloc::vec![Complex::<T>::zero(); n];
+        self.ifft_strided(input, stride, &mut scratch)
     }
 
     fn fft_split(&self, re: &mut [T], im: &mut [T]) -> Result<(), FftError> {
-- 
2.43.0


From f69a11e5a0839aedfd2b95db94f7d9fa50e3d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 14/33] fix: parallel inverse FFT re-derives its f32 view after
 the buffer was used through the original reference

---
 src/fft.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index fa82845..465f2c9 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1137,6 +1137,8 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
                 let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };
                 input32.par_iter_mut().for_each(|c| c.im = -c.im);
                 self.fft(input)?;
+                // Derived afresh: the call above used `input` itself.
+                let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };
                 let scale = 1.0 / n as f32;
                 input32.par_iter_mut().for_each(|c| {
                     c.im = -c.im;
-- 
2.43.0


From 7456c90d7b805d44d1f4888bab4d142a3fbb5e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 15/33] fix: parallel FFT threshold saturates instead of
 overflowing

---
 src/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 465f2c9..152c3f7 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -153,7 +153,7 @@ fn parallel_fft_threshold() -> usize {
                 cache_elems,
                 core::cmp::max(per_core_work, env_parallel_fft_block_size()),
             );
-            per_core_min * env_parallel_fft_threads()
+            per_core_min.saturating_mul(env_parallel_fft_threads())
         }
     })
 }
@@ -275,7 +275,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
     #[cfg(not(feature = "std"))]
     {
@@ -301,7 +301,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
 }
 
-- 
2.43.0


From 9b973af2610698d962217b732ca87a980ad4279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 16/33] fix: strided FFT rejects a stride whose span overflows
 usize

---
 src/fft.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 152c3f7..423d980 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1173,7 +1173,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if (n - 1)
+            .checked_mul(stride)
+            .map_or(true, |last| last >= input.len())
+        {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
@@ -1234,7 +1237,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if (n - 1)
+            .checked_mul(stride)
+            .map_or(true, |last| last >= input.len())
+        {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
-- 
2.43.0


From 06bb3b3f2a8b322179c31a8e62ef7b8e7b220971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 17/33] fix: Bluestein chirp angles are reduced exactly instead
 of rounding i*i to f32

---
 src/fft.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index 423d980..e3d7556 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -413,7 +413,10 @@ impl<T: Float> FftPlanner<T> {
             let mut chirp: Vec<Complex<T>> = Vec::with_capacity(n);
             let mut b: Vec<Complex<T>> = Vec::with_capacity(m);
             for i in 0..n {
-                let angle = T::pi() * T::from_f32((i * i) as f32) / T::from_f32(n as f32);
+                // The chirp has period 2n in i², and the reduced index keeps the
+                // angle small and exactly representable.
+                let k = (i * i) % (2 * n);
+                let angle = T::pi() * T::from_f32(k as f32) / T::from_f32(n as f32);
                 chirp.push(Complex::expi(-angle));
                 b.push(Complex::expi(angle));
             }
-- 
2.43.0


From 72a5023ac493efc033432e4c7e1cd2471c605659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 18/33] fix: fixed-size FFT kernels use constants of the
 element type's own precision

---
 src/fft.rs         |  2 +-
 src/fft_kernels.rs | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index e3d7556..893d92a 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1619,7 +1619,7 @@ fn butterfly8<T: Float>(
 ) -> [Complex<T>; 8] {
     let (e0, e1, e2, e3) = butterfly4(x0, x2, x4, x6);
     let (o0, mut o1, mut o2, mut o3) = butterfly4(x1, x3, x5, x7);
-    let sqrt1_2 = T::from_f32(core::f32::consts::FRAC_1_SQRT_2);
+    let sqrt1_2 = (T::pi() / T::from_f32(4.0)).cos();
     let w1 = Complex::new(sqrt1_2, -sqrt1_2);
     let w2 = Complex::new(T::zero(), -T::one());
     let w3 = Complex::new(-sqrt1_2, -sqrt1_2);
diff --git a/src/fft_kernels.rs b/src/fft_kernels.rs
index c260160..ed2941c 100644
--- a/src/fft_kernels.rs
+++ b/src/fft_kernels.rs
@@ -32,7 +32,7 @@ pub fn fft4<T: Float>(input: &mut [Complex<T>]) {
 pub fn fft8<T: Float>(input: &mut [Complex<T>]) {
     debug_assert_eq!(input.len(), 8);
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = (T::pi() / T::from_f32(4.0)).cos(); // sqrt(2)/2
 
     // load inputs before overwriting
     let x0 = input[0];
@@ -107,7 +107,7 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     let x15 = input[15];
 
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = (T::pi() / T::from_f32(4.0)).cos(); // sqrt(2)/2
 
     // ---- even index FFT8 ----
     let a0 = x0.add(x8);
@@ -178,12 +178,12 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     input[15] = oa3.sub(t3);
 
     // ---- twiddle multiply odd half ----
-    let c1 = T::from_f32(0.9238795);
-    let s1 = T::from_f32(-0.38268343);
-    let c2 = T::from_f32(0.70710677);
-    let s2 = T::from_f32(-0.70710677);
-    let c3 = T::from_f32(0.38268343);
-    let s3 = T::from_f32(-0.9238795);
+    let c1 = (T::pi() / T::from_f32(8.0)).cos();
+    let c2 = s;
+    let s2 = -s;
+    let c3 = (T::pi() / T::from_f32(8.0)).sin();
+    let s1 = -c3;
+    let s3 = -c1;
     let c4 = T::zero();
     let s4 = T::from_f32(-1.0);
 
-- 
2.43.0


From ece524340d09a724a333550c263a898a8a6a6a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 19/33] fix: inverse FFT without std rejects unsupported
 lengths before touching the buffer

---
 src/fft.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 893d92a..b6b63ce 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1128,6 +1128,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 1 {
             return Ok(());
         }
+        #[cfg(not(feature = "std"))]
+        if !n.is_power_of_two() {
+            return Err(FftError::NonPowerOfTwoNoStd);
+        }
         #[cfg(feature = "parallel")]
         {
             #[cfg(all(feature = "parallel", feature = "std"))]
@@ -1395,6 +1399,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
             let re32 = unsafe { &mut *(re as *mut [T] as *mut [f32]) };
             let im32 = unsafe { &mut *(im as *mut [T] as *mut [f32]) };
+            #[cfg(not(feature = "std"))]
+            if re32.len() > 1 && !re32.len().is_power_of_two() {
+                return Err(FftError::NonPowerOfTwoNoStd);
+            }
             for x in im32.iter_mut() {
                 *x = -*x;
             }
@@ -1411,6 +1419,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f64>) };
             let re64 = unsafe { &mut *(re as *mut [T] as *mut [f64]) };
             let im64 = unsafe { &mut *(im as *mut [T] as *mut [f64]) };
+            #[cfg(not(feature = "std"))]
+            if re64.len() > 1 && !re64.len().is_power_of_two() {
+                return Err(FftError::NonPowerOfTwoNoStd);
+            }
             for x in im64.iter_mut() {
                 *x = -*x;
             }
-- 
2.43.0


From 11af4aa3198cecb043da82a07f88a1638d43bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 20/33] fix: default real FFT wrappers zero their scratch
 instead of exposing uninitialised memory

---
 src/rfft.rs | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/rfft.rs b/src/rfft.rs
index 08d5a49..ed8d81d 100644
--- a/src/rfft.rs
+++ b/src/rfft.rs
@@ -9,8 +9,6 @@ use alloc::{sync::Arc, vec::Vec};
 
 use hashbrown::HashMap;
 
-use core::mem::MaybeUninit;
-
 use crate::fft::{fft_inplace_stack, ifft_inplace_stack, Complex, Complex32, FftError, FftImpl};
 use crate::num::Float;
 
@@ -790,17 +788,8 @@ pub trait RealFftImpl<T: RealFftNum>: FftImpl<T> {
     /// Convenience wrapper that allocates a scratch buffer internally.
     fn rfft(&self, input: &mut [T], output: &mut [Complex<T>]) -> Result<(), FftError> {
         let scratch_len = input.len() / 2;
-        let mut scratch: Vec<MaybeUninit<Complex<T>>> = Vec::with_capacity(scratch_len);
-        // SAFETY: `rfft_with_scratch` initializes every element of the buffer
-        // before any read occurs.
-        unsafe {
-            scratch.set_len(scratch_len);
-            let scratch_slice = core::slice::from_raw_parts_mut(
-                scratch.as_mut_ptr() as *mut Complex<T>,
-                scratch_len,
-            );
-            self.rfft_with_scratch(input, output, scratch_slice)
-        }
+        let mut scratch = alloc::vec![Complex::<T>::zero(); scratch_len];
+        self.rfft_with_scratch(input, output, &mut scratch)
     }
 
     /// Compute the inverse real FFT, consuming `N/2 + 1` complex samples and
@@ -819,17 +808,8 @@ pub trait RealFftImpl<T: RealFftNum>: FftImpl<T> {
     /// Convenience wrapper that allocates scratch internally.
     fn irfft(&self, input: &mut [Complex<T>], output: &mut [T]) -> Result<(), FftError> {
         let scratch_len = output.len() / 2;
-        let mut scratch: Vec<MaybeUninit<Complex<T>>> = Vec::with_capacity(scratch_len);
-        // SAFETY: `irfft_with_scratch` initializes every element of the buffer
-        // before any read occurs.
-        unsafe {
-            scratch.set_len(scratch_len);
-            let scratch_slice = core::slice::from_raw_parts_mut(
-                scratch.as_mut_ptr() as *mut Complex<T>,
-                scratch_len,
-            );
-            self.irfft_with_scratch(input, output, scratch_slice)
-        }
+        let mut scratch = alloc::vec![Complex::<T>::zero(); scratch_len];
+        self.irfft_with_scratch(input, output, &mut scratch)
     }
 }
 
-- 
2.43.0


From 93d75cf49508d681ec0c5902a89557a34f4604a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 21/33] fix: AVX real FFT kernels run only on CPUs that report
 AVX

---
 src/rfft.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/rfft.rs b/src/rfft.rs
index ed8d81d..4858432 100644
--- a/src/rfft.rs
+++ b/src/rfft.rs
@@ -56,6 +56,9 @@ impl RealFftNum for f32 {
     ) -> Result<(), FftError> {
         #[cfg(all(target_arch = "x86_64", feature = "x86_64"))]
         {
+            if !avx_available() {
+                return rfft_direct(fft, input, output, scratch, twiddles, pack_twiddles);
+            }
             unsafe {
                 rfft_direct_f32_avx(
                     |d| fft.fft(d),
@@ -97,6 +100,9 @@ impl RealFftNum for f32 {
     ) -> Result<(), FftError> {
         #[cfg(all(target_arch = "x86_64", feature = "x86_64"))]
         {
+            if !avx_available() {
+                return irfft_direct(fft, input, output, scratch, twiddles, pack_twiddles);
+            }
             unsafe {
                 irfft_direct_f32_avx(
                     |d| fft.ifft(d),
@@ -508,6 +514,19 @@ fn irfft_direct<T: Float, F: FftImpl<T> + ?Sized>(
 #[cfg(all(target_arch = "x86_64", feature = "x86_64"))]
 use core::arch::x86_64::*;
 
+/// Whether the CPU can run the AVX real-FFT kernels.
+#[cfg(all(target_arch = "x86_64", feature = "x86_64"))]
+fn avx_available() -> bool {
+    #[cfg(feature = "std")]
+    {
+        std::arch::is_x86_feature_detected!("avx")
+    }
+    #[cfg(not(feature = "std"))]
+    {
+        cfg!(target_feature = "avx")
+    }
+}
+
 #[cfg(all(target_arch = "x86_64", feature = "x86_64"))]
 #[target_feature(enable = "avx")]
 unsafe fn rfft_direct_f32_avx<F>(
-- 
2.43.0


From b2b7e7be7e09724b8f149acdaf145abfd0c35cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 22/33] fix: multi-level wavelet inverse drops the sample the
 forward pass repeated on odd levels

---
 src/wavelet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 8f12b57..1813b66 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -77,6 +77,8 @@ where
 {
     let mut current = approx.to_vec();
     for d in details.iter().rev() {
+        // The forward pass repeats the last sample of an odd-length level.
+        current.truncate(d.len());
         current = inverse(&current, d);
     }
     current
-- 
2.43.0


From 81bf7b0fc3663520827b3246fc7e7e3a2eb6e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 23/33] fix: kaiser window of length 0 or 1 neither underflows
 nor yields NaN

---
 src/window.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/window.rs b/src/window.rs
index 81083eb..b6b561d 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -50,6 +50,9 @@ pub fn blackman(len: usize) -> alloc::vec::Vec<f32> {
 /// Generate a Kaiser window of length `len` and shape parameter `beta`.
 #[cfg(feature = "std")]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
+    if len <= 1 {
+        return alloc::vec![1.0; len];
+    }
     let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
@@ -62,6 +65,9 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
 
 #[cfg(not(feature = "std"))]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
+    if len <= 1 {
+        return alloc::vec![1.0; len];
+    }
     let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
-- 
2.43.0


From ec17944c3c9458e00a371f9a9df3b4cbb79e6bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 24/33] fix: stft_magnitudes reports a zero hop instead of
 dividing by it

---
 src/visual/spectrogram.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index ea209d5..ac78278 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -54,6 +54,9 @@ pub fn stft_magnitudes(
     win_len: usize,
     hop: usize,
 ) -> Result<(Vec<Vec<f32>>, f32), FftError> {
+    if hop == 0 {
+        return Err(FftError::InvalidHopSize);
+    }
     let window = hann(win_len);
     let fft = ScalarFftImpl::<f32>::default();
     let mut frames = vec![vec![]; samples.len().div_ceil(hop)];
-- 
2.43.0


From 05295c1ac9b0422eef70f1c5dfd1ccba0186cee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 25/33] fix: log_scale_bins ignores values above max_bin
 instead of indexing out of bounds

---
 src/visual/spectrogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index ac78278..3f03c38 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -223,7 +223,7 @@ pub fn map_bin_to_pixel(bin: usize, max_bin: usize) -> usize {
 pub fn log_scale_bins(values: &[f32], max_bin: usize) -> Vec<f32> {
     let mut accum = vec![0.0f32; max_bin + 1];
     let mut counts = vec![0u32; max_bin + 1];
-    for (bin, &v) in values.iter().enumerate() {
+    for (bin, &v) in values.iter().take(max_bin + 1).enumerate() {
         let y = map_bin_to_pixel(bin, max_bin);
         accum[y] += v;
         counts[y] += 1;
-- 
2.43.0


From ea1520204c6affad90c9455f4afb58a93d684485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 26/33] fix: multi-dimensional FFT rejects dimensions whose
 product overflows usize

---
 src/ndfft.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ndfft.rs b/src/ndfft.rs
index 34a0c7f..9e4e463 100644
--- a/src/ndfft.rs
+++ b/src/ndfft.rs
@@ -78,7 +78,7 @@ pub fn fft2d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch_col: &mut [Complex<T>],
 ) -> Result<(), FftError> {
-    if rows * cols != data.len() {
+    if rows.checked_mul(cols) != Some(data.len()) {
         return Err(FftError::MismatchedLengths);
     }
     if rows == 0 || cols == 0 {
@@ -119,7 +119,11 @@ pub fn fft3d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch: &mut Fft3dScratch<'_, T>,
 ) -> Result<(), FftError> {
-    if depth * rows * cols != data.len() {
+    if depth
+        .checked_mul(rows)
+        .and_then(|plane| plane.checked_mul(cols))
+        != Some(data.len())
+    {
         return Err(FftError::MismatchedLengths);
     }
     if depth == 0 || rows == 0 || cols == 0 {
-- 
2.43.0


From b423edf10162bcfebfa52a50742e90084d84639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 27/33] fix: Bluestein planning of length zero does not
 underflow

---
 src/fft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index b6b63ce..0999f5c 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -409,7 +409,7 @@ impl<T: Float> FftPlanner<T> {
     #[cfg(feature = "std")]
     pub fn get_bluestein(&mut self, n: usize) -> BluesteinPair<T> {
         let pair = self.bluestein_cache.entry(n).or_insert_with(|| {
-            let m = (2 * n - 1).next_power_of_two();
+            let m = (2 * n).saturating_sub(1).next_power_of_two();
             let mut chirp: Vec<Complex<T>> = Vec::with_capacity(n);
             let mut b: Vec<Complex<T>> = Vec::with_capacity(m);
             for i in 0..n {
-- 
2.43.0


From 7a0216093e1c3e81f540136632f30a1398bddf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 28/33] fix: no_std math methods call libm instead of recursing
 without end

---
 src/num.rs | 62 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index af16bca..0496916 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -28,15 +28,8 @@ pub trait Float:
     }
 }
 
-///
-/// # Note
-/// The #[allow(unconditional_recursion)] attribute is used here because rustc/Clippy
-/// sometimes issues a false positive warning when calling inherent methods (e.g., f32::cos(self))
-/// inside a trait implementation with the same method name. This is not actual recursion:
-/// - f32::cos(self) and f64::cos(self) call the standard library's inherent method, not the trait method.
-/// - All tests pass and no stack overflow occurs.
-/// - This is a known linter false positive and is safe to suppress.
-#[allow(unconditional_recursion)]
+/// The inherent math methods (e.g. `f32::cos`) exist only with the standard library;
+/// without it the same names would resolve to this trait, so `libm` is used instead.
 impl Float for f32 {
     fn zero() -> Self {
         0.0
@@ -48,32 +41,37 @@ impl Float for f32 {
         x
     }
     fn cos(self) -> Self {
-        f32::cos(self)
+        #[cfg(feature = "std")]
+        return f32::cos(self);
+        #[cfg(not(feature = "std"))]
+        libm::cosf(self)
     }
     fn sin(self) -> Self {
-        f32::sin(self)
+        #[cfg(feature = "std")]
+        return f32::sin(self);
+        #[cfg(not(feature = "std"))]
+        libm::sinf(self)
     }
     fn sin_cos(self) -> (Self, Self) {
-        f32::sin_cos(self)
+        #[cfg(feature = "std")]
+        return f32::sin_cos(self);
+        #[cfg(not(feature = "std"))]
+        libm::sincosf(self)
     }
     fn pi() -> Self {
         PI32
     }
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
-        f32::mul_add(self, a, b)
+        #[cfg(feature = "std")]
+        return f32::mul_add(self, a, b);
+        #[cfg(not(feature = "std"))]
+        libm::fmaf(self, a, b)
     }
 }
 
-///
-/// # Note
-/// The #[allow(unconditional_recursion)] attribute is used here because rustc/Clippy
-/// sometimes issues a false positive warning when calling inherent methods (e.g., f64::cos(self))
-/// inside a trait implementation with the same method name. This is not actual recursion:
-/// - f64::cos(self) calls the standard library's inherent method, not the trait method.
-/// - All tests pass and no stack overflow occurs.
-/// - This is a known linter false positive and is safe to suppress.
-#[allow(unconditional_recursion)]
+/// The inherent math methods (e.g. `f64::cos`) exist only with the standard library;
+/// without it the same names would resolve to this trait, so `libm` is used instead.
 impl Float for f64 {
     fn zero() -> Self {
         0.0
@@ -85,20 +83,32 @@ impl Float for f64 {
         x as f64
     }
     fn cos(self) -> Self {
-        f64::cos(self)
+        #[cfg(feature = "std")]
+        return f64::cos(self);
+        #[cfg(not(feature = "std"))]
+        libm::cos(self)
     }
     fn sin(self) -> Self {
-        f64::sin(self)
+        #[cfg(feature = "std")]
+        return f64::sin(self);
+        #[cfg(not(feature = "std"))]
+        libm::sin(self)
     }
     fn sin_cos(self) -> (Self, Self) {
-        f64::sin_cos(self)
+        #[cfg(feature = "std")]
+        return f64::sin_cos(self);
+        #[cfg(not(feature = "std"))]
+        libm::sincos(self)
     }
     fn pi() -> Self {
         core::f64::consts::PI
     }
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
-        f64::mul_add(self, a, b)
+        #[cfg(feature = "std")]
+        return f64::mul_add(self, a, b);
+        #[cfg(not(feature = "std"))]
+        libm::fma(self, a, b)
     }
 }
 
-- 
2.43.0


From 62c2fbd9920081ec1050001a2c74e99daac5ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 29/33] fix: STFT forms reject an empty window before touching
 the caller's buffers

---
 src/stft.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index d2d7dee..d656383 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -88,6 +88,9 @@ pub fn stft<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     let win_len = window.len();
+    if win_len == 0 && !output.is_empty() {
+        return Err(FftError::EmptyInput);
+    }
     for (frame_idx, frame) in output.iter_mut().enumerate() {
         let start = frame_idx.saturating_mul(hop_size);
         frame.resize(win_len, Complex32::new(0.0, 0.0));
@@ -135,6 +138,9 @@ pub fn istft<Fft: FftImpl<f32>>(
             return Err(FftError::MismatchedLengths);
         }
     }
+    if win_len == 0 && !frames.is_empty() {
+        return Err(FftError::EmptyInput);
+    }
     for x in output.iter_mut() {
         *x = 0.0;
     }
@@ -253,6 +259,9 @@ pub fn parallel<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     let win_len = window.len();
+    if win_len == 0 && !output.is_empty() {
+        return Err(FftError::EmptyInput);
+    }
     output
         .par_iter_mut()
         .enumerate()
-- 
2.43.0


From 90099b552381711df416535490a287edbb14d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 30/33] fix: reject unsupported 2-D/3-D sizes before
 transforming any line (no std)

---
 src/ndfft.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ndfft.rs b/src/ndfft.rs
index 9e4e463..01070dc 100644
--- a/src/ndfft.rs
+++ b/src/ndfft.rs
@@ -87,6 +87,12 @@ pub fn fft2d_inplace<T: Float>(
     if scratch_col.len() != rows {
         return Err(FftError::MismatchedLengths);
     }
+    // Without `std` only power-of-two lengths can be transformed: reject the
+    // call before any line has been touched.
+    #[cfg(not(feature = "std"))]
+    if !rows.is_power_of_two() || !cols.is_power_of_two() {
+        return Err(FftError::NonPowerOfTwoNoStd);
+    }
     // FFT on rows
     for r in 0..rows {
         let start = r * cols;
@@ -132,6 +138,12 @@ pub fn fft3d_inplace<T: Float>(
     if scratch.tube.len() != depth || scratch.row.len() != rows || scratch.col.len() != cols {
         return Err(FftError::MismatchedLengths);
     }
+    // Without `std` only power-of-two lengths can be transformed: reject the
+    // call before any line has been touched.
+    #[cfg(not(feature = "std"))]
+    if !depth.is_power_of_two() || !rows.is_power_of_two() || !cols.is_power_of_two() {
+        return Err(FftError::NonPowerOfTwoNoStd);
+    }
     // FFT on depth (z axis)
     for r in 0..rows {
         for c in 0..cols {
-- 
2.43.0


From a8891ececdcbfa15801382541d937ae85e02f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:08 +0000
Subject: [PATCH 31/33] fix: double-precision tables and scales take lengths
 and indices without rounding through f32

---
 src/dst.rs  |  4 ++--
 src/fft.rs  | 10 +++++-----
 src/num.rs  |  8 ++++++++
 src/rfft.rs |  2 +-
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/dst.rs b/src/dst.rs
index 549c829..b8bf114 100644
--- a/src/dst.rs
+++ b/src/dst.rs
@@ -39,11 +39,11 @@ impl<T: Float> DstPlanner<T> {
     }
 
     fn build_table_offset(n: usize, offset: f32) -> Vec<T> {
-        let factor = T::pi() / T::from_f32(n as f32);
+        let factor = T::pi() / T::from_usize(n);
         let off = T::from_f32(offset);
         let mut table = Vec::with_capacity(n);
         for i in 0..n {
-            let angle = factor * (T::from_f32(i as f32) + off);
+            let angle = factor * (T::from_usize(i) + off);
             table.push(angle.sin());
         }
         table
diff --git a/src/fft.rs b/src/fft.rs
index 0999f5c..715accd 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -389,7 +389,7 @@ impl<T: Float> FftPlanner<T> {
 
         if !self.cache.contains_key(&n) {
             let half = n / 2;
-            let angle = -T::from_f32(2.0) * T::pi() / T::from_f32(n as f32);
+            let angle = -T::from_f32(2.0) * T::pi() / T::from_usize(n);
             let (sin_step, cos_step) = angle.sin_cos();
 
             let mut table: Vec<Complex<T>> = Vec::with_capacity(half);
@@ -416,7 +416,7 @@ impl<T: Float> FftPlanner<T> {
                 // The chirp has period 2n in i², and the reduced index keeps the
                 // angle small and exactly representable.
                 let k = (i * i) % (2 * n);
-                let angle = T::pi() * T::from_f32(k as f32) / T::from_f32(n as f32);
+                let angle = T::pi() * T::from_usize(k) / T::from_usize(n);
                 chirp.push(Complex::expi(-angle));
                 b.push(Complex::expi(angle));
             }
@@ -1105,7 +1105,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             for c in a[..m].iter_mut() {
                 c.im = -c.im;
             }
-            let scale = T::one() / T::from_f32(m as f32);
+            let scale = T::one() / T::from_usize(m);
             for c in a[..m].iter_mut() {
                 c.re = c.re * scale;
                 c.im = c.im * scale;
@@ -1159,7 +1159,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             c.im = -c.im;
         }
         self.fft(input)?;
-        let scale = T::one() / T::from_f32(n as f32);
+        let scale = T::one() / T::from_usize(n);
         for c in input.iter_mut() {
             c.im = -c.im;
             c.re = c.re * scale;
@@ -2059,7 +2059,7 @@ impl<T: Float> FftPlan<T> {
             c.im = -c.im;
         }
         self.fft(input)?;
-        let scale = T::one() / T::from_f32(self.n as f32);
+        let scale = T::one() / T::from_usize(self.n);
         for c in input.iter_mut() {
             c.im = -c.im;
             c.re = c.re * scale;
diff --git a/src/num.rs b/src/num.rs
index 0496916..de85057 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -18,6 +18,11 @@ pub trait Float:
     fn zero() -> Self;
     fn one() -> Self;
     fn from_f32(x: f32) -> Self;
+    /// Convert a length or an index. Types wider than `f32` override this, because
+    /// `f32` cannot represent every integer above 2^24.
+    fn from_usize(n: usize) -> Self {
+        Self::from_f32(n as f32)
+    }
     fn cos(self) -> Self;
     fn sin(self) -> Self;
     fn sin_cos(self) -> (Self, Self);
@@ -82,6 +87,9 @@ impl Float for f64 {
     fn from_f32(x: f32) -> Self {
         x as f64
     }
+    fn from_usize(n: usize) -> Self {
+        n as f64
+    }
     fn cos(self) -> Self {
         #[cfg(feature = "std")]
         return f64::cos(self);
diff --git a/src/rfft.rs b/src/rfft.rs
index 4858432..4318701 100644
--- a/src/rfft.rs
+++ b/src/rfft.rs
@@ -174,7 +174,7 @@ mod precomputed {
 }
 
 fn build_twiddle_table<T: Float>(m: usize) -> alloc::vec::Vec<Complex<T>> {
-    let angle = -T::pi() / T::from_f32(m as f32);
+    let angle = -T::pi() / T::from_usize(m);
     let (sin_step, cos_step) = angle.sin_cos();
     let w = Complex::new(cos_step, sin_step);
     let mut table = alloc::vec::Vec::with_capacity(m);
-- 
2.43.0


From aea531cba3ad4d177f7b055ee1850109e1c6efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:22 +0000
Subject: [PATCH 32/33] fix: DST-III evaluates the DST-III sum, so that it
 inverts DST-II up to scaling

---
 src/dst.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/dst.rs b/src/dst.rs
index b8bf114..5e97f55 100644
--- a/src/dst.rs
+++ b/src/dst.rs
@@ -121,9 +121,14 @@ pub fn dst3(input: &[f32]) -> Vec<f32> {
     let mut output = vec![0.0; n];
     let factor = PI / n as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (i, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * i as f32).sin();
+        let half_last = input[n - 1] / 2.0;
+        let mut sum = if k.is_multiple_of(2) {
+            half_last
+        } else {
+            -half_last
+        };
+        for (i, &x) in input.iter().take(n - 1).enumerate() {
+            sum += x * (factor * (k as f32 + 0.5) * (i as f32 + 1.0)).sin();
         }
         *out = sum;
     }
@@ -245,9 +250,14 @@ pub fn dst3_inplace_stack_fft<const N: usize>(
     // Direct computation using stack memory to ensure parity with heap-based version.
     let factor = PI / N as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (n, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * n as f32).sin();
+        let half_last = input[N - 1] / 2.0;
+        let mut sum = if k.is_multiple_of(2) {
+            half_last
+        } else {
+            -half_last
+        };
+        for (i, &x) in input.iter().take(N - 1).enumerate() {
+            sum += x * (factor * (k as f32 + 0.5) * (i as f32 + 1.0)).sin();
         }
         *out = sum;
     }
-- 
2.43.0


From b62b87fb9eb2dfbbd80e71f55e5f1f5be7c3f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 33/33] fix: db4, sym4 and coif1 inverses use the filters that
 match the forward transform

---
 src/wavelet.rs | 64 +++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 1813b66..16cb0a3 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -316,24 +316,24 @@ pub fn db4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
-        0.2303778133088965,
-        0.7148465705529157,
-        0.6308807679298589,
-        -0.027983769416859854,
-        -0.18703481171909309,
-        0.030841381835560764,
-        0.0328830116668852,
-        -0.010597401785069032,
-    ];
-    let h = [
         -0.010597401785069032,
-        -0.0328830116668852,
+        0.0328830116668852,
         0.030841381835560764,
-        0.18703481171909309,
+        -0.18703481171909309,
         -0.027983769416859854,
-        -0.6308807679298589,
+        0.6308807679298589,
         0.7148465705529157,
+        0.2303778133088965,
+    ];
+    let h = [
         -0.2303778133088965,
+        0.7148465705529157,
+        -0.6308807679298589,
+        -0.027983769416859854,
+        0.18703481171909309,
+        0.030841381835560764,
+        -0.0328830116668852,
+        -0.010597401785069032,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -410,24 +410,24 @@ pub fn sym4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
-        0.0322231006040427,
-        -0.012603967262037833,
-        -0.09921954357684722,
-        0.29785779560527736,
-        0.8037387518059161,
-        0.49761866763201545,
-        -0.02963552764599851,
-        -0.07576571478927333,
-    ];
-    let h = [
         -0.07576571478927333,
-        0.02963552764599851,
+        -0.02963552764599851,
         0.49761866763201545,
-        -0.8037387518059161,
+        0.8037387518059161,
         0.29785779560527736,
-        0.09921954357684722,
+        -0.09921954357684722,
         -0.012603967262037833,
+        0.0322231006040427,
+    ];
+    let h = [
         -0.0322231006040427,
+        -0.012603967262037833,
+        0.09921954357684722,
+        0.29785779560527736,
+        -0.8037387518059161,
+        0.49761866763201545,
+        0.02963552764599851,
+        -0.07576571478927333,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -500,20 +500,20 @@ pub fn coif1_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
+        -0.015655728135791993,
         -0.07273261951252645,
-        0.3378976624574818,
-        0.8525720202116004,
         0.3848648468648578,
+        0.8525720202116004,
+        0.3378976624574818,
         -0.07273261951252645,
-        -0.015655728135791993,
     ];
     let h = [
-        -0.015655728135791993,
         0.07273261951252645,
-        0.3848648468648578,
-        -0.8525720202116004,
         0.3378976624574818,
+        -0.8525720202116004,
+        0.3848648468648578,
         0.07273261951252645,
+        -0.015655728135791993,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
-- 
2.43.0

