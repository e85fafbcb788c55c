From bd11d5717ca3dfc1a67f4e361e3f851684eefc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 01/64] fix: frequency axis has one label per bin when the
 number of bins is odd

---
 tftb/processing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index e44c297..009ae43 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -44,7 +44,7 @@ class BaseTFRepresentation(object):
             freqs = np.r_[np.arange(self.n_fbins / 2),
                           np.arange(-self.n_fbins / 2, 0)]
         else:
-            freqs = np.r_[np.arange((self.n_fbins - 1) / 2),
+            freqs = np.r_[np.arange((self.n_fbins + 1) / 2),
                           np.arange(-(self.n_fbins - 1) / 2, 0)]
         self.freqs = freqs / self.n_fbins
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
-- 
2.43.0


From 7cfac1c9a049cedfb60d157f0955eb53aea53441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:30 +0000
Subject: [PATCH 02/64] fix: repeated run() starts from an empty representation
 instead of the previous result

---
 tftb/processing/base.py   | 4 ++++
 tftb/processing/cohen.py  | 7 +++++++
 tftb/processing/linear.py | 1 +
 3 files changed, 12 insertions(+)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 009ae43..b016fd7 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -47,6 +47,10 @@ class BaseTFRepresentation(object):
             freqs = np.r_[np.arange((self.n_fbins + 1) / 2),
                           np.arange(-(self.n_fbins - 1) / 2, 0)]
         self.freqs = freqs / self.n_fbins
+        self._reset_tfr()
+
+    def _reset_tfr(self):
+        """Allocate an empty representation, so that each run starts afresh."""
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
 
     def _get_spectrum(self):
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index ae9ea6b..9c5b0ad 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -27,6 +27,7 @@ class Spectrogram(ShortTimeFourierTransform):
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
                       self.signal.shape[0] - self.ts], axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
+        self._reset_tfr()
         for icol in range(self.tfr.shape[1]):
             ti = self.ts[icol]
             start = starts[icol]
@@ -49,6 +50,7 @@ class PageRepresentation(BaseTFRepresentation):
     name = "page representation"
 
     def run(self):
+        self._reset_tfr()
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min([self.n_fbins - ti,
@@ -82,6 +84,7 @@ class PseudoPageRepresentation(PageRepresentation):
 
     def run(self):
         lh = (self.fwindow.shape[0] - 1) / 2
+        self._reset_tfr()
         for icol in range(self.ts.shape[0]):
             tau = np.arange(min([self.n_fbins - 1, lh, icol - 1]) + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins) + 1
@@ -96,6 +99,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
     name = "margenau-hill"
 
     def run(self):
+        self._reset_tfr()
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
@@ -133,6 +137,7 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
     def run(self):
         lh = (self.fwindow.shape[0] - 1) // 2
         xrow = self.signal.shape[0]
+        self._reset_tfr()
         for icol in range(self.ts.shape[0]):
             start = min([np.round(self.n_fbins / 2.0) - 1, lh, xrow - icol])
             end = min([np.round(self.n_fbins / 2.0) - 1, lh, icol - 1])
@@ -155,6 +160,7 @@ class WignerVilleDistribution(BaseTFRepresentation):
                                self.signal.shape[0] - np.arange(self.signal.shape[0]) - 1,
                          winlength * np.ones(self.ts.shape)], axis=1)
         conj_signal = np.conj(self.signal)
+        self._reset_tfr()
         for icol in range(self.ts.shape[0]):
             taumax = taulens[icol]
             tau = np.arange(-taumax, taumax + 1).astype(int)
@@ -193,6 +199,7 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
 
     def run(self):
         lh = (self.fwindow.shape[0] - 1) // 2
+        self._reset_tfr()
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
                           np.round(self.n_fbins / 2.0), lh)
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 8615525..66d4b24 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -64,6 +64,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
                             self.signal.shape[0] - np.arange(self.ts.shape[0])],
                       axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
+        self._reset_tfr()
         for icol in range(self.tfr.shape[1]):
             start = starts[icol]
             end = ends[icol]
-- 
2.43.0


From 277a669413ef7c7334c27343e9638cbe467ae978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:25 +0000
Subject: [PATCH 03/64] fix: plot() no longer changes the representation or the
 arrays returned by run()

---
 tftb/processing/affine.py | 20 +++++++++------
 tftb/processing/cohen.py  | 52 ++++++++++++++++++++++++---------------
 tftb/processing/linear.py | 22 ++++++++++-------
 3 files changed, 57 insertions(+), 37 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index fd51e1e..786e464 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -107,15 +107,19 @@ class AffineDistribution(BaseTFRepresentation):
         return beta, mellin1, mellin2
 
     def plot(self, kind="contour", show_tf=True, threshold=0.05, **kwargs):
-        _thresh = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _thresh] = 0
-        freq_y = kwargs.pop(
-            "freq_y", np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
-        )
+        tfr = self.tfr
+        try:
+            _thresh = np.amax(self.tfr) * threshold
+            self.tfr = np.where(self.tfr <= _thresh, 0, self.tfr)
+            freq_y = kwargs.pop(
+                "freq_y", np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
+            )
 
-        super(AffineDistribution, self).plot(
-            kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
-        )
+            super(AffineDistribution, self).plot(
+                kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
+            )
+        finally:
+            self.tfr = tfr
 
     def _get_interpolated_tf(self, tffr):
         tfr = np.zeros((self.n_voices, self.ts.shape[0]))
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 9c5b0ad..83a974f 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -62,11 +62,15 @@ class PageRepresentation(BaseTFRepresentation):
         return self.tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
-        self.tfr = self.tfr[:(self.tfr.shape[0] / 2), :]
-        self.tfr = np.abs(self.tfr) ** 2
-        _threshold = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _threshold] = 0.0
-        super(PageRepresentation, self).plot(kind=kind, **kwargs)
+        tfr = self.tfr
+        try:
+            self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
+            self.tfr = np.abs(self.tfr) ** 2
+            _threshold = np.amax(self.tfr) * threshold
+            self.tfr = np.where(self.tfr <= _threshold, 0.0, self.tfr)
+            super(PageRepresentation, self).plot(kind=kind, **kwargs)
+        finally:
+            self.tfr = tfr
 
 
 class PseudoPageRepresentation(PageRepresentation):
@@ -112,13 +116,17 @@ class MargenauHillDistribution(BaseTFRepresentation):
         return self.tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
-        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
-        if sqmod:
-            self.tfr = np.abs(self.tfr) ** 2
-        _threshold = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _threshold] = 0.0
-        extent = [0, self.ts.max(), 0, 0.5]
-        super(MargenauHillDistribution, self).plot(kind=kind, extent=extent, **kwargs)
+        tfr = self.tfr
+        try:
+            self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
+            if sqmod:
+                self.tfr = np.abs(self.tfr) ** 2
+            _threshold = np.amax(self.tfr) * threshold
+            self.tfr = np.where(self.tfr <= _threshold, 0.0, self.tfr)
+            extent = [0, self.ts.max(), 0, 0.5]
+            super(MargenauHillDistribution, self).plot(kind=kind, extent=extent, **kwargs)
+        finally:
+            self.tfr = tfr
 
 
 class PseudoMargenauHillDistribution(MargenauHillDistribution):
@@ -183,14 +191,18 @@ class WignerVilleDistribution(BaseTFRepresentation):
             mini = max(np.amin(self.tfr), maxi * threshold)
             levels = np.logspace(np.log10(mini), np.log10(maxi), 65)
             kwargs['levels'] = levels
-        if sqmod:
-            self.tfr = np.abs(self.tfr) ** 2
-        else:
-            self.tfr = np.abs(self.tfr)
-        _threshold = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _threshold] = 0.0
-        super(WignerVilleDistribution, self).plot(kind=kind, threshold=threshold,
-                                                  **kwargs)
+        tfr = self.tfr
+        try:
+            if sqmod:
+                self.tfr = np.abs(self.tfr) ** 2
+            else:
+                self.tfr = np.abs(self.tfr)
+            _threshold = np.amax(self.tfr) * threshold
+            self.tfr = np.where(self.tfr <= _threshold, 0.0, self.tfr)
+            super(WignerVilleDistribution, self).plot(kind=kind, threshold=threshold,
+                                                      **kwargs)
+        finally:
+            self.tfr = tfr
 
 
 class PseudoWignerVilleDistribution(WignerVilleDistribution):
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 66d4b24..88e4ae7 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -93,15 +93,19 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         :return: None
         :rtype: None
         """
-        self.tfr = self.tfr[:int(self.n_fbins / 2.0), :]
-        self.freqs = self.freqs[:int(self.n_fbins / 2.0)]
-        if sqmod:
-            self.tfr = np.abs(self.tfr) ** 2
-        _threshold = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _threshold] = 0.0
-        super(ShortTimeFourierTransform, self).plot(ax=ax, kind=kind,
-                                                    threshold=threshold,
-                                                    **kwargs)
+        tfr, freqs = self.tfr, self.freqs
+        try:
+            self.tfr = self.tfr[:int(self.n_fbins / 2.0), :]
+            self.freqs = self.freqs[:int(self.n_fbins / 2.0)]
+            if sqmod:
+                self.tfr = np.abs(self.tfr) ** 2
+            _threshold = np.amax(self.tfr) * threshold
+            self.tfr = np.where(self.tfr <= _threshold, 0.0, self.tfr)
+            super(ShortTimeFourierTransform, self).plot(ax=ax, kind=kind,
+                                                        threshold=threshold,
+                                                        **kwargs)
+        finally:
+            self.tfr, self.freqs = tfr, freqs
 
 
 def gabor(signal, n_coeff=None, q_oversample=None, window=None):
-- 
2.43.0


From a832ec3b60725ababa7e1f59800c94b1c5f85b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:30 +0000
Subject: [PATCH 04/64] fix: Scalogram honours n_voices, starts each run afresh
 and aligns the wavelet transform with the time axis

---
 tftb/processing/affine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 786e464..2c35f2f 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -182,6 +182,7 @@ class Scalogram(AffineDistribution):
             np.log10(self.fmax / float(self.fmin)), np.log10(1), self.n_voices
         )
         wt = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
+        self.tfr = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
         if self.waveparams > 0:
             for ptr in range(self.n_voices):
                 nha = self.waveparams * a[ptr]
@@ -192,11 +193,11 @@ class Scalogram(AffineDistribution):
                 detail = np.convolve(self.z, ha) / np.sqrt(a[ptr])
                 ix = np.arange(
                     int(np.round(nha)),
-                    detail.shape[0] - int(np.round(nha)) + 1,
+                    detail.shape[0] - int(np.round(nha)),
                     dtype=int,
                 )
-                wt[ptr, :] = detail[self.ts]
                 detail = detail[ix]
+                wt[ptr, :] = detail[self.ts]
                 self.tfr[ptr, :] = detail[self.ts] * np.conj(detail[self.ts])
         elif self.waveparams == 0:
             for ptr in range(self.n_voices):
@@ -204,7 +205,7 @@ class Scalogram(AffineDistribution):
                 nha = (ha.shape[0] - 1) / 2
                 detail = np.convolve(self.z, ha) / np.sqrt(a[ptr])
                 ix = np.arange(
-                    int(np.round(nha)) + 1, detail.shape[0] - int(np.round(nha)) + 1
+                    int(np.round(nha)), detail.shape[0] - int(np.round(nha))
                 )
                 detail = detail[ix]
                 wt[ptr, :] = detail[self.ts]
-- 
2.43.0


From f186d4dd0d008bf74b72cb5ee19752d37e7717b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:35 +0000
Subject: [PATCH 05/64] fix: affine distributions set the equivalent duration
 for narrow bandwidths too

---
 tftb/processing/affine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 2c35f2f..6dfa082 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -276,10 +276,10 @@ class UnterbergerDistribution(AffineDistribution):
         if teq < 2 * self.m:
             m0 = int(np.round((2 * self.m ** 2) / teq - self.m)) + 1
             m1 = self.m + m0
-            self.T = 2 * (self.m + m0) - 1
         else:
             m0 = 0
             m1 = self.m
+        self.T = 2 * (self.m + m0) - 1
         self.m1 = int(np.round(m1))
         if n_voices is None:
             self._get_nvoices()
@@ -357,9 +357,9 @@ class DFlandrinDistribution(AffineDistribution):
         teq = self.m / (self.fmax * self.umax)
         if teq < 2 * self.m:
             m0 = int(round((2 * self.m ** 2) / teq - self.m)) + 1
-            self.T = 2 * (self.m + m0) - 1
         else:
             m0 = 0
+        self.T = 2 * (self.m + m0) - 1
         self.m1 = int(np.round(self.m + m0))
         if n_voices is None:
             self._get_nvoices()
@@ -416,10 +416,10 @@ class BertrandDistribution(AffineDistribution):
         if teq < self.signal.shape[0]:
             m0 = int(np.round((2 * self.m ** 2) / teq - self.m)) + 1
             m1 = self.m + m0
-            self.T = 2 * m1 - 1
         else:
             m0 = 0
             m1 = self.m
+        self.T = 2 * m1 - 1
         self.m1 = m1
         if n_voices is None:
             self._get_nvoices()
-- 
2.43.0


From 07671d359a8781c29d9dbb1503f856f11a05e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:39 +0000
Subject: [PATCH 06/64] fix: passive Unterberger distribution reads its own
 abscissa instead of running past the last one

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 6dfa082..bce9c56 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -301,7 +301,7 @@ class UnterbergerDistribution(AffineDistribution):
             fx2 = np.fft.fft(np.fft.fftshift(mx2))[: self.n_voices]
             waf[n - 1, :] = fx1 * np.conj(fx2)
             if self.form != "A":
-                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n] / 2) ** 2)
+                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n - 1] / 2) ** 2)
         waf = np.vstack((waf[self.m1: (2 * self.m1), :], waf[: self.m1, :]))
         waf *= np.repeat(
             self.geo_f.reshape((1, self.geo_f.shape[0])), 2 * self.m1, axis=0
-- 
2.43.0


From 2058b0934efa2b64538c9a4e29ffa79db027b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:44 +0000
Subject: [PATCH 07/64] fix: Mellin abscissae count no longer depends on
 rounding of the step

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index bce9c56..290b8ac 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -100,7 +100,7 @@ class AffineDistribution(BaseTFRepresentation):
         mellin2 = np.fft.fftshift(np.fft.ifft(S2))
         umin = -self.umax
         du = np.abs(self.umax - umin) / (2 * self.m1)
-        u = np.linspace(umin, self.umax - du, int((self.umax - umin) / du))
+        u = np.linspace(umin, self.umax - du, 2 * int(self.m1))
         u[int(self.m1)] = 0
         self.u = u
         beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))
-- 
2.43.0


From 6044ea6f01aeb769266824e6a2fde5e376d0810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:33 +0000
Subject: [PATCH 08/64] fix: (pseudo) Wigner-Ville no longer crashes with fewer
 bins than samples; half-record lag is averaged once

---
 tftb/processing/cohen.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 83a974f..09aa69a 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -175,10 +175,11 @@ class WignerVilleDistribution(BaseTFRepresentation):
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.signal[icol + tau] * \
                 conj_signal[icol - tau]
-            if (icol <= self.signal.shape[0] - tausec) and (icol >= tausec + 1):
-                self.tfr[tausec, icol] = self.signal[icol + tausec, 0] * \
-                    np.conj(self.signal[icol - tausec, 0]) + \
-                    self.signal[icol - tausec, 0] * conj_signal[icol + tausec, 0]
+            if (self.n_fbins % 2 == 0) and (icol >= tausec) and \
+                    (icol <= self.signal.shape[0] - tausec - 1):
+                self.tfr[tausec, icol] = 0.5 * (
+                    self.signal[icol + tausec] * conj_signal[icol - tausec] +
+                    self.signal[icol - tausec] * conj_signal[icol + tausec])
         self.tfr = np.fft.fft(self.tfr, axis=0)
         self.tfr = np.real(self.tfr)
         self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
@@ -214,19 +215,20 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
         self._reset_tfr()
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
-                          np.round(self.n_fbins / 2.0), lh)
+                          np.round(self.n_fbins / 2.0) - 1, lh)
             taumax = np.min(taumaxvals)
             tau = np.arange(-taumax, taumax + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol + tau] * \
                 np.conj(self.signal[icol - tau])
-            tau = np.round(self.n_fbins / 2.0)
-            if (icol <= self.signal.shape[0] - tau) and (icol >= tau + 1) and (tau <= lh):
-                self.tfr[int(tau), icol] = self.fwindow[lh + tau] * \
-                    self.signal[icol + tau, 0] * np.conj(self.signal[icol - tau, 0]) + \
-                    self.fwindow[lh - tau] * self.signal[icol - tau, 0] * \
-                    np.conj(self.signal[icol + tau, 0])
-                self.tfr[int(tau), icol] *= 0.5
+            tau = int(np.round(self.n_fbins / 2.0))
+            if (self.n_fbins % 2 == 0) and (icol >= tau) and \
+                    (icol <= self.signal.shape[0] - tau - 1) and (tau <= lh):
+                self.tfr[tau, icol] = self.fwindow[lh + tau] * \
+                    self.signal[icol + tau] * np.conj(self.signal[icol - tau]) + \
+                    self.fwindow[lh - tau] * self.signal[icol - tau] * \
+                    np.conj(self.signal[icol + tau])
+                self.tfr[tau, icol] *= 0.5
 
         self.tfr = np.fft.fft(self.tfr, axis=0)
         return np.real(self.tfr), self.ts, self.freqs
-- 
2.43.0


From 18fbedbe994617dbb7980d6955088dd7fc75b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:37 +0000
Subject: [PATCH 09/64] fix: pseudo Wigner-Ville keeps the real distribution
 and labels its rows with k / 2n

---
 tftb/processing/cohen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 09aa69a..3b30389 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -230,8 +230,9 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
                     np.conj(self.signal[icol + tau])
                 self.tfr[tau, icol] *= 0.5
 
-        self.tfr = np.fft.fft(self.tfr, axis=0)
-        return np.real(self.tfr), self.ts, self.freqs
+        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
+        self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
+        return self.tfr, self.ts, self.freqs
 
     def plot(self, **kwargs):
         if "kind" not in kwargs:
-- 
2.43.0


From 919800f92f34434d7409a7219c8d4157272528e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:41 +0000
Subject: [PATCH 10/64] fix: Page, pseudo Page and Margenau-Hill put lag k in
 row k and use every lag of the record

---
 tftb/processing/cohen.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 3b30389..b5c315f 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -54,10 +54,10 @@ class PageRepresentation(BaseTFRepresentation):
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min([self.n_fbins - ti,
-                                  self.signal.shape[0] - ti]), ti)
+                                  self.signal.shape[0] - ti]) + 1, ti + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = np.dot(self.signal[ti],
-                                             np.conj(self.signal[ti - tau - 1]))
+                                             np.conj(self.signal[ti - tau]))
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
@@ -83,15 +83,15 @@ class PseudoPageRepresentation(PageRepresentation):
             hlength += 1
         from scipy.signal.windows import hamming
         fwindow = hamming(hlength)
-        lh = (fwindow.shape[0] - 1) / 2
+        lh = (fwindow.shape[0] - 1) // 2
         return fwindow / fwindow[lh]
 
     def run(self):
-        lh = (self.fwindow.shape[0] - 1) / 2
+        lh = (self.fwindow.shape[0] - 1) // 2
         self._reset_tfr()
         for icol in range(self.ts.shape[0]):
-            tau = np.arange(min([self.n_fbins - 1, lh, icol - 1]) + 1)
-            indices = np.remainder(self.n_fbins + tau, self.n_fbins) + 1
+            tau = np.arange(min([self.n_fbins - 1, lh, icol]) + 1)
+            indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * \
                 self.signal[icol] * np.conj(self.signal[icol - tau])
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
@@ -107,7 +107,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
-                                  self.signal.shape[0] - ti)) + 1, ti)
+                                  self.signal.shape[0] - ti)) + 1, ti + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.signal[ti] * \
                 np.conj(self.signal[ti - tau])
-- 
2.43.0


From 4cf2525d33d32166e6cdd6706b6edba05e53e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:46 +0000
Subject: [PATCH 11/64] fix: pseudo Margenau-Hill is real and puts lag k in row
 k

---
 tftb/processing/cohen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index b5c315f..2212190 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -147,13 +147,13 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
         xrow = self.signal.shape[0]
         self._reset_tfr()
         for icol in range(self.ts.shape[0]):
-            start = min([np.round(self.n_fbins / 2.0) - 1, lh, xrow - icol])
-            end = min([np.round(self.n_fbins / 2.0) - 1, lh, icol - 1])
+            start = min([int(round(self.n_fbins / 2.0)) - 1, lh, xrow - icol - 1])
+            end = min([int(round(self.n_fbins / 2.0)) - 1, lh, icol])
             tau = np.arange(-start, end + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol] * \
-                np.conj(self.signal[icol - tau - 1])
-        self.tfr = np.fft.fft(self.tfr, axis=0)
+                np.conj(self.signal[icol - tau])
+        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
 
-- 
2.43.0


From 22d5ffe9bbe002f96d2c36fc1c283ff73199f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:50 +0000
Subject: [PATCH 12/64] fix: smoothed pseudo Wigner-Ville puts lag k in row k
 and centres column t on sample t

---
 tftb/processing/cohen.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 2212190..566cb34 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -282,40 +282,41 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
     lh = (fwindow.shape[0] - 1) // 2
     for icol in range(timestamps.shape[0]):
         ti = timestamps[icol]
-        taumax = min([ti + lg - 1, signal.shape[0] - ti + lg,
+        taumax = min([ti + lg, signal.shape[0] - ti - 1 + lg,
                       round(freq_bins / 2.0) - 1, lh])
-        points = np.arange(-min([lg, signal.shape[0] - ti]),
-                           min([lg, ti - 1]) + 1).astype(int)
+        points = np.arange(-min([lg, signal.shape[0] - ti - 1]),
+                           min([lg, ti]) + 1).astype(int)
         lg_points = (lg + points).astype(int)
         g2 = twindow[lg_points]
         g2 = g2 / np.sum(g2)
-        signal_idx = (ti - points - 1).astype(int)
+        signal_idx = (ti - points).astype(int)
         tfr[0, icol] = np.sum(g2 * signal[signal_idx] * np.conj(signal[signal_idx]))
-        for tau in range(int(taumax)):
-            points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
-                               min([lg, ti - 1 - tau]) + 1)
+        for tau in range(1, int(taumax) + 1):
+            points = np.arange(-min([lg, signal.shape[0] - ti - 1 - tau]),
+                               min([lg, ti - tau]) + 1)
             lg_points = (lg + points).astype(int)
             g2 = twindow[lg_points]
             g2 = g2 / np.sum(g2)
-            idx1 = (ti + tau - points - 1).astype(int)
-            idx2 = (ti - tau - points - 1).astype(int)
+            idx1 = (ti + tau - points).astype(int)
+            idx2 = (ti - tau - points).astype(int)
             R = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            tfr[1 + tau, icol] = fwindow[lh + tau + 1] * R
+            tfr[tau, icol] = fwindow[lh + tau] * R
             R = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            tfr[freq_bins - tau - 1, icol] = fwindow[lh - tau + 1] * R
-        tau = np.round(freq_bins / 2.0)
-        if (ti <= signal.shape[0] - tau) and (ti >= tau + 1) and (tau <= lh):
-            points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
-                               min([lg, ti - 1 - tau]) + 1)
-            lg_points = (lg + 1 + points).astype(int)
+            tfr[freq_bins - tau, icol] = fwindow[lh - tau] * R
+        tau = int(round(freq_bins / 2.0))
+        if (freq_bins % 2 == 0) and (ti <= signal.shape[0] - tau - 1) and \
+                (ti >= tau) and (tau <= lh):
+            points = np.arange(-min([lg, signal.shape[0] - ti - 1 - tau]),
+                               min([lg, ti - tau]) + 1)
+            lg_points = (lg + points).astype(int)
             g2 = twindow[lg_points]
             g2 = g2 / np.sum(g2)
             idx1 = (ti + tau - points).astype(int)
             idx2 = (ti - tau - points).astype(int)
             _x = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            _x *= fwindow[(lh + tau + 1).astype(int)]
+            _x *= fwindow[lh + tau]
             _y = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            _y *= fwindow[(lh - tau + 1).astype(int)]
+            _y *= fwindow[lh - tau]
             tfr[tau, icol] = (_x + _y) * 0.5
     tfr = np.fft.fft(tfr, axis=0)
     return np.real(tfr)
-- 
2.43.0


From 663af7116ff078420089b502210de034bdf51920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:54 +0000
Subject: [PATCH 13/64] fix: STFT and spectrogram centre column t on sample t
 instead of the sample before it

---
 tftb/processing/cohen.py  | 6 +++---
 tftb/processing/linear.py | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 566cb34..5d4d6e2 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -22,10 +22,10 @@ class Spectrogram(ShortTimeFourierTransform):
     def run(self):
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([round(self.n_fbins / 2.0) - 1, lh])
-        starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts - 1],
+        starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                      self.signal.shape[0] - self.ts], axis=1).astype(int)
+                      self.signal.shape[0] - 1 - self.ts], axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
         self._reset_tfr()
         for icol in range(self.tfr.shape[1]):
@@ -34,7 +34,7 @@ class Spectrogram(ShortTimeFourierTransform):
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[indices.astype(int), icol] = self.signal[ti + tau - 1] * \
+            self.tfr[indices.astype(int), icol] = self.signal[ti + tau] * \
                 conj_fwindow[lh + tau] / np.linalg.norm(self.fwindow[lh + tau])
         self.tfr = np.abs(np.fft.fft(self.tfr, axis=0)) ** 2
         return self.tfr, self.ts, self.freqs
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 88e4ae7..87db721 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -56,12 +56,12 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
 
         Where :math:`w` is a Hamming window."""
         lh = (self.fwindow.shape[0] - 1) // 2
-        rangemin = min([round(self.n_fbins / 2.0), lh])
+        rangemin = min([round(self.n_fbins / 2.0) - 1, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                               np.arange(self.ts.shape[0]) - 1],
+                               np.arange(self.ts.shape[0])],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                            self.signal.shape[0] - np.arange(self.ts.shape[0])],
+                            self.signal.shape[0] - 1 - np.arange(self.ts.shape[0])],
                       axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
         self._reset_tfr()
@@ -70,7 +70,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             index = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[index, icol] = self.signal[(icol + tau - 1).astype(int)] * \
+            self.tfr[index, icol] = self.signal[(icol + tau).astype(int)] * \
                 conj_fwindow[(lh + tau).astype(int)]
         self.tfr = np.fft.fft(self.tfr, axis=0)
         return self.tfr, self.ts, self.freqs
-- 
2.43.0


From e4e9e768b5fc0481557594fa83708d0d13548cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:43 +0000
Subject: [PATCH 14/64] fix: reassigned representations take their default
 window from scipy.signal.windows

---
 tftb/processing/reassigned.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 252f8ce..8c9fe68 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -38,7 +38,7 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(int(hlength))
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
     lh = (fwindow.shape[0] - 1) // 2
@@ -119,7 +119,7 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
     lh = (fwindow.shape[0] - 1) / 2
@@ -194,7 +194,7 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
     lh = (fwindow.shape[0] - 1) / 2
@@ -385,7 +385,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     if fwindow is None:
         hlength = np.floor(n_fbins / 4.0)
         hlength += 1 - (hlength % 2)
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
     lh = (fwindow.shape[0] - 1) / 2
@@ -393,7 +393,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     if twindow is None:
         glength = np.floor(n_fbins / 4.0)
         glength += 1 - (glength % 2)
-        twindow = ssig.hamming(glength)
+        twindow = ssig.windows.hamming(int(glength))
     elif twindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
     lg = (twindow.shape[0] - 1) / 2
@@ -493,7 +493,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     if window is None:
         wlength = int(np.floor(signal.shape[0] / 4.0))
         wlength += 1 - np.remainder(wlength, 2)
-        window = ssig.hamming(wlength)
+        window = ssig.windows.hamming(wlength)
     elif window.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
 
@@ -553,7 +553,7 @@ if __name__ == '__main__':
     import matplotlib.pyplot as plt
     ts = np.arange(128, step=2)
     sig = fmlin(128, 0.1, 0.4)[0]
-    fwindow = ssig.kaiser(17, beta=3 * np.pi)
+    fwindow = ssig.windows.kaiser(17, beta=3 * np.pi)
     _, rtfr, _ = pseudo_wigner_ville(sig, timestamps=ts, n_fbins=64,
                                      fwindow=fwindow)
     rtfr = np.abs(rtfr) ** 2
-- 
2.43.0


From 7521bc4a5b7490cfd7c0c7e84f77a6bab180c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:46 +0000
Subject: [PATCH 15/64] fix: reassigned pseudo Wigner-Ville indexes samples,
 lags and destination bins from zero

---
 tftb/processing/reassigned.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 8c9fe68..005541e 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -49,21 +49,21 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
     dh = derive_window(fwindow)
     for icol in range(tcol):
         ti = timestamps[icol]
-        taumax = min([ti - 1, xrow - ti, np.round(n_fbins / 2.0) - 1, lh])
+        taumax = min([ti, xrow - ti - 1, int(round(n_fbins / 2.0)) - 1, lh])
         tau = np.arange(-taumax, taumax + 1)
-        indices = np.remainder(n_fbins + tau, n_fbins) + 1
-        tfr[indices - 1, icol] = fwindow[lh + tau] * signal[ti + tau - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tf2[indices - 1, icol] = dh[lh + tau] * signal[ti + tau - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tau = np.round(n_fbins / 2)
-        if (ti <= (xrow - tau)) and (ti > (tau + 1)) and (tau <= lh):
-            _x = fwindow[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = fwindow[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tfr[tau + 1, icol] = (_x + _y) * 0.5
-            _x = dh[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = dh[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tf2[tau + 1, icol] = (_x + _y) * 0.5
+        indices = np.remainder(n_fbins + tau, n_fbins)
+        tfr[indices, icol] = fwindow[lh + tau] * signal[ti + tau] * \
+            np.conj(signal[ti - tau])
+        tf2[indices, icol] = dh[lh + tau] * signal[ti + tau] * \
+            np.conj(signal[ti - tau])
+        tau = int(round(n_fbins / 2.0))
+        if (n_fbins % 2 == 0) and (ti <= (xrow - tau - 1)) and (ti >= tau) and (tau <= lh):
+            _x = fwindow[lh + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
+            _y = fwindow[lh - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
+            tfr[tau, icol] = (_x + _y) * 0.5
+            _x = dh[lh + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
+            _y = dh[lh - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
+            tf2[tau, icol] = (_x + _y) * 0.5
     tfr = np.real(np.fft.fft(tfr, axis=0))
     tf2 = np.imag(np.fft.fft(tf2, axis=0))
     tfr = tfr.ravel()
@@ -83,9 +83,8 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
                 jcolhat = jcol - int(tf2[jcol, icol])
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = ((jcolhat % n_fbins) + n_fbins) % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From 8b91896136f2b2aec1353ee87ef8a2dc81a1143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 16/64] fix: reassigned pseudo Margenau-Hill uses integer,
 zero-based indices

---
 tftb/processing/reassigned.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 005541e..b84a446 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -121,7 +121,7 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
         fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
     fwindow = fwindow / fwindow[lh]
 
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
@@ -130,14 +130,14 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
     for icol in range(tcol):
         ti = timestamps[icol]
-        start = min([np.round(n_fbins / 2.0) - 1, lh, xrow - ti])
-        end = min([np.round(n_fbins / 2.0) - 1, lh, ti - 1])
+        start = min([int(round(n_fbins / 2.0)) - 1, lh, xrow - ti - 1])
+        end = min([int(round(n_fbins / 2.0)) - 1, lh, ti])
         tau = np.arange(-start, end + 1)
         indices = np.remainder(n_fbins + tau, n_fbins)
-        tfr[indices, icol] = fwindow[lh + tau] * signal[ti - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tf2[indices, icol] = dh[lh + tau] * signal[ti - 1] * \
-            np.conj(signal[ti - tau - 1])
+        tfr[indices, icol] = fwindow[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[indices, icol] = dh[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
 
     tfr = np.fft.fft(tfr, axis=0)
     tf2 = np.fft.fft(tf2, axis=0)
@@ -157,10 +157,9 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                jcolhat = jcol - tf2[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = jcol - int(tf2[jcol, icol])
+                jcolhat = ((jcolhat % n_fbins) + n_fbins) % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From 974d581057f2b889b436c16c2fc1d27b5618ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 17/64] fix: reassigned pseudo Page uses integer, zero-based
 indices and the requested instants

---
 tftb/processing/reassigned.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index b84a446..200b3ca 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -195,7 +195,7 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
         fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
     fwindow = fwindow / fwindow[lh]
 
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
@@ -203,13 +203,14 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
     dh = derive_window(fwindow)
 
     for icol in range(tcol):
-        tau = np.arange(min([n_fbins - 1, lh, icol - 1]) + 1)
-        indices = np.remainder(n_fbins + tau, n_fbins) + 1
-        tfr[indices, icol] = fwindow[lh + tau] * signal[icol] * \
-            np.conj(signal[icol - tau])
-        tf2[indices, icol] = dh[lh + tau] * signal[icol] * \
-            np.conj(signal[icol - tau])
-        tf2[0, icol] += signal[icol] * np.conj(signal[icol])
+        ti = timestamps[icol]
+        tau = np.arange(min([n_fbins - 1, lh, ti]) + 1)
+        indices = np.remainder(n_fbins + tau, n_fbins)
+        tfr[indices, icol] = fwindow[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[indices, icol] = dh[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[0, icol] += signal[ti] * np.conj(signal[ti])
 
     tfr = np.fft.fft(tfr, axis=0)
     tf2 = np.fft.fft(tf2, axis=0)
@@ -229,10 +230,9 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                jcolhat = jcol - tf2[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = jcol - int(tf2[jcol, icol])
+                jcolhat = ((jcolhat % n_fbins) + n_fbins) % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From 2aecf4d0ea4cc9e10a5ddedc5d9ee21c369d5f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:57 +0000
Subject: [PATCH 18/64] fix: reassigned Morlet scalogram uses integer,
 zero-based indices

---
 tftb/processing/reassigned.py | 40 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 200b3ca..3c34ec0 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -280,23 +280,23 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
         factor = np.sqrt(m / (tbp * n_fbins))
         for icol in range(tcol):
             ti = timestamps[icol]
-            tau_neg = np.arange(1, min([np.ceil(M / m), ti - 1]) + 1).astype(int)
-            tau_pos = np.arange(min([np.ceil(M / m), xrow - ti]) + 1).astype(int)
+            tau_neg = np.arange(1, min([np.ceil(M / m), ti]) + 1).astype(int)
+            tau_pos = np.arange(min([np.ceil(M / m), xrow - ti - 1]) + 1).astype(int)
             # positive frequencies
-            tfr[m, icol] = np.dot(hstar[m * tau_pos - 1],
-                                  signal[ti + tau_pos - 1])
-            tf2[m, icol] = np.dot(thstar[m * tau_pos - 1],
-                                  signal[ti + tau_pos - 1])
+            tfr[m, icol] = np.dot(hstar[m * tau_pos],
+                                  signal[ti + tau_pos])
+            tf2[m, icol] = np.dot(thstar[m * tau_pos],
+                                  signal[ti + tau_pos])
             if tau_neg.shape[0] > 0:
                 tfr[m, icol] += np.dot(np.conj(hstar[tau_neg * m]),
                                        signal[ti - tau_neg])
                 tf2[m, icol] -= np.dot(np.conj(thstar[tau_neg * m]),
                                        signal[ti - tau_neg])
             # negative frequencies
-            tfr[n_fbins - m, icol] = np.dot(np.conj(hstar[tau_pos * m - 1]),
-                                            signal[ti + tau_pos - 1])
-            tf2[n_fbins - m, icol] = np.dot(np.conj(thstar[tau_pos * m - 1]),
-                                            signal[ti + tau_pos - 1])
+            tfr[n_fbins - m, icol] = np.dot(np.conj(hstar[tau_pos * m]),
+                                            signal[ti + tau_pos])
+            tf2[n_fbins - m, icol] = np.dot(np.conj(thstar[tau_pos * m]),
+                                            signal[ti + tau_pos])
             if tau_neg.shape[0] > 0:
                 tfr[n_fbins - m, icol] += np.dot(hstar[tau_neg * m],
                                                  signal[ti - tau_neg])
@@ -311,10 +311,8 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
     factor = np.sqrt(m / (tbp * n_fbins))
     for icol in range(tcol):
         ti = timestamps[icol]
-        tau_neg = np.arange(1, min([np.ceil(M / m), ti - 1]) + 1).astype(int)
-        tau_pos = np.arange(min([np.ceil(M / m), xrow - ti]) + 1).astype(int)
-        tau_pos -= 1
-        tau_neg -= 1
+        tau_neg = np.arange(1, min([np.ceil(M / m), ti]) + 1).astype(int)
+        tau_pos = np.arange(min([np.ceil(M / m), xrow - ti - 1]) + 1).astype(int)
 
         tfr[m, icol] = np.dot(hstar[m * tau_pos], signal[ti + tau_pos])
         tf2[m, icol] = np.dot(thstar[m * tau_pos], signal[ti + tau_pos])
@@ -340,14 +338,14 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if tfr[jcol, icol] > threshold:
-                icolhat = icol + np.round(np.real(tf2[jcol, icol] / dt))
-                icolhat = min([max([icolhat, 1]), tcol])
-                m = np.remainder(jcol + np.round(n_fbins / 2.0) - 2,
+                icolhat = icol + int(np.round(np.real(tf2[jcol, icol] / dt)))
+                icolhat = min([max([icolhat, 0]), tcol - 1])
+                m = np.remainder(jcol + np.round(n_fbins / 2.0) - 1,
                                  n_fbins)
-                m -= np.round(n_fbins / 2.0) + 1
-                jcolhat = jcol + np.round(np.imag((m ** 2) * tf2[jcol, icol] / factor))
-                jcolhat = ((((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins) + 1
-                rtfr[jcolhat - 1, icolhat - 1] += tfr[jcol, icol]
+                m -= np.round(n_fbins / 2.0) - 1
+                jcolhat = jcol + int(np.round(np.imag((m ** 2) * tf2[jcol, icol] / factor)))
+                jcolhat = ((jcolhat % n_fbins) + n_fbins) % n_fbins
+                rtfr[jcolhat, icolhat] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf * (1 + 1j)
-- 
2.43.0


From 7c2ca8fb226501f56a3bbb83818b837644379121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:45 +0000
Subject: [PATCH 19/64] fix: reassigned smoothed pseudo Wigner-Ville uses
 integer, zero-based indices and moves the energy

---
 tftb/processing/reassigned.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 3c34ec0..200d0af 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -384,7 +384,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
         fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
 
     if twindow is None:
         glength = np.floor(n_fbins / 4.0)
@@ -392,7 +392,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
         twindow = ssig.windows.hamming(int(glength))
     elif twindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
-    lg = (twindow.shape[0] - 1) / 2
+    lg = (twindow.shape[0] - 1) // 2
 
     tcol = timestamps.shape[0]
     deltat = timestamps[1:] - timestamps[:-1]
@@ -408,30 +408,30 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
 
     for icol in range(tcol):
         ti = timestamps[icol]
-        taumax = min([ti + lg - 1, xrow - ti + lg, np.round(n_fbins / 2.0) - 1,
+        taumax = min([ti + lg, xrow - ti - 1 + lg, np.round(n_fbins / 2.0) - 1,
                       lh])
-        points = np.arange(-min([lg, xrow - ti]), min([lg, ti - 1]) + 1)
+        points = np.arange(-min([lg, xrow - ti - 1]), min([lg, ti]) + 1)
         g2 = twindow[lg + points]
         g2 = g2 / g2.sum()
         tg2 = g2 * points
-        xx = signal[ti - 1 - points] * np.conj(signal[ti - 1 - points])
+        xx = signal[ti - points] * np.conj(signal[ti - points])
         tfr[0, icol] = (g2 * xx).sum()
         tf2[0, icol] = (tg2 * xx).sum()
-        tf3[0, icol] = dh[lh + 1] * tfr[0, icol]
+        tf3[0, icol] = dh[lh] * tfr[0, icol]
 
-        for tau in range(int(taumax)):
-            points = np.arange(-min([lg, xrow - ti - tau]),
-                               min([lg, ti - tau - 1]) + 1)
+        for tau in range(1, int(taumax) + 1):
+            points = np.arange(-min([lg, xrow - ti - 1 - tau]),
+                               min([lg, ti - tau]) + 1)
             g2 = twindow[lg + points]
             g2 = g2 / g2.sum()
             tg2 = g2 * points
-            xx = signal[ti + tau - 1 - points] * np.conj(signal[ti - tau - 1 - points])
+            xx = signal[ti + tau - points] * np.conj(signal[ti - tau - points])
             tfr[tau, icol] = (g2 * xx).sum() * fwindow[lh + tau]
             tf2[tau, icol] = fwindow[lh + tau] * (tg2 * xx).sum()
             tf3[tau, icol] = dh[lh + tau] * (g2 * xx).sum()
-            tfr[n_fbins - tau - 1, icol] = (g2 * np.conj(xx)).sum() * fwindow[lh - tau]
-            tf2[n_fbins - tau - 1, icol] = (tg2 * np.conj(xx)).sum() * fwindow[lh - tau]
-            tf3[n_fbins - tau - 1, icol] = dh[lh - tau] * (g2 * np.conj(xx)).sum()
+            tfr[n_fbins - tau, icol] = (g2 * np.conj(xx)).sum() * fwindow[lh - tau]
+            tf2[n_fbins - tau, icol] = (tg2 * np.conj(xx)).sum() * fwindow[lh - tau]
+            tf3[n_fbins - tau, icol] = dh[lh - tau] * (g2 * np.conj(xx)).sum()
 
     tfr = np.real(np.fft.fft(tfr, axis=0)).ravel()
     tf2 = np.real(np.fft.fft(tf2, axis=0)).ravel()
@@ -451,10 +451,11 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                icolhat = min(max([icol - tf2[jcol, icol], 1]), tcol)
+                icolhat = icol - int(np.real(tf2[jcol, icol]))
+                icolhat = min(max([icolhat, 0]), tcol - 1)
                 jcolhat = jcol - tf3[jcol, icol]
-                jcolhat = (((int(jcolhat) - 1) % n_fbins) + n_fbins) % n_fbins + 1
-                rtfr[jcol, icol] += tfr[jcol, icol]
+                jcolhat = ((int(jcolhat) % n_fbins) + n_fbins) % n_fbins
+                rtfr[jcolhat, icolhat] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf * (1 + 1j)
-- 
2.43.0


From a8b6a0dcbc0c1ab6468387f457f1c7105309bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:49 +0000
Subject: [PATCH 20/64] fix: reassigned spectrogram indexes samples and
 destination cells from zero

---
 tftb/processing/reassigned.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 200d0af..de4e989 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -505,12 +505,12 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
         ti = time_samples[icol]
         tau = np.arange(-np.min([np.round(n_fbins / 2) - 1, lh, ti]),
                         np.min([np.round(n_fbins / 2) - 1, lh,
-                                signal.shape[0] - ti]) + 1).astype(int)
+                                signal.shape[0] - ti - 1]) + 1).astype(int)
         indices = np.remainder(n_fbins + tau, n_fbins)
         norm_h = np.linalg.norm(window[lh + tau], ord=2)
-        tfr[indices, icol] = signal[ti + tau - 1] * np.conj(window[lh + tau]) / norm_h
-        tf2[indices, icol] = signal[ti + tau - 1] * np.conj(th[lh + tau]) / norm_h
-        tf3[indices, icol] = signal[ti + tau - 1] * np.conj(dwin[lh + tau]) / norm_h
+        tfr[indices, icol] = signal[ti + tau] * np.conj(window[lh + tau]) / norm_h
+        tf2[indices, icol] = signal[ti + tau] * np.conj(th[lh + tau]) / norm_h
+        tf3[indices, icol] = signal[ti + tau] * np.conj(dwin[lh + tau]) / norm_h
 
     tfr = np.fft.fft(tfr, axis=0).ravel()
     tf2 = np.fft.fft(tf2, axis=0).ravel()
@@ -528,16 +528,16 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     tf3 = np.real(tf3)
 
     rtfr = np.zeros((n_fbins, time_samples.shape[0]), dtype=complex)
-    ix = np.arange(time_samples.min(), time_samples.max() + 1) - 1
+    ix = np.arange(time_samples.min(), time_samples.max() + 1)
     threshold = 1e-6 * np.mean(np.abs(signal[ix])**2)
     for icol in range(time_samples.shape[0]):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                icolhat = icol + tf2[jcol, icol]
-                icolhat = np.min([np.max([icolhat, 1]), time_samples.shape[0]])
+                icolhat = icol + np.real(tf2[jcol, icol])
+                icolhat = np.min([np.max([icolhat, 0]), time_samples.shape[0] - 1])
                 jcolhat = jcol - tf3[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                rtfr[int(jcolhat), int(icolhat) - 1] += tfr[jcol, icol]
+                jcolhat = ((jcolhat % n_fbins) + n_fbins) % n_fbins
+                rtfr[int(jcolhat), int(icolhat)] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From 8380e452e3322b852cb455ada306a646f27381f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:08 +0000
Subject: [PATCH 21/64] fix: renyi_information leaves the caller's time and
 frequency axes untouched

---
 tftb/processing/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index c224b1d..2276f38 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -87,10 +87,10 @@ def renyi_information(tfr, timestamps=None, freq=None, alpha=3.0):
     if timestamps is None:
         timestamps = np.arange(n) + 1
     elif np.allclose(timestamps, np.arange(n)):
-        timestamps += 1
+        timestamps = timestamps + 1
     if freq is None:
         freq = np.arange(m)
-    freq.sort()
+    freq = np.sort(freq)
     tfr = tfr / integrate_2d(tfr, timestamps, freq)
     if alpha == 1:
         R = -integrate_2d(tfr * np.log2(tfr + np.spacing(1)), timestamps, freq)
-- 
2.43.0


From e74f116b21b74b749d21a27735fdba9f7c8d96fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:12 +0000
Subject: [PATCH 22/64] fix: hough_transform returns one rho value per row of
 the accumulator

---
 tftb/processing/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 2276f38..ff51719 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -62,7 +62,7 @@ def hough_transform(image, m=None, n=None):
                         ht[int(np.round(rho / deltar)),
                            int(np.round(theta / deltat))] += image[x + xc - 1,
                                                                    y + yc - 1]
-    rho = np.linspace(0, rhomax, n)
+    rho = np.linspace(0, rhomax, m)
     theta = np.linspace(0, 2 * np.pi - deltat, n)
     return ht, rho, theta
 
-- 
2.43.0


From 7397c8c6edf952034ba9f92fdff3b252a455ca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:16 +0000
Subject: [PATCH 23/64] fix: ridges returns the points of every column, and
 empty arrays when there is none

---
 tftb/processing/postprocessing.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index ff51719..cfb2b23 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -183,6 +183,7 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
 
     n_fbins = tfrrow
     freqs = np.arange(n_fbins)
+    time_points, freq_points = np.zeros((0,)), np.zeros((0,))
     threshold = np.sum(np.sum(tfr)) * 0.5 / tfr.size
 
     if method in ('rpwv', 'rpmh'):
@@ -191,28 +192,31 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
             indices = np.logical_and(tfr[:, icol] > threshold,
                                      re_mat[:, icol] - freqs == 0)
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points,
+                                    np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)]
     elif method == "rspwv":
         for icol in range(tfrcol):
             ti = timestamps[icol]
             condt1 = np.real(re_mat[:, icol]) - freqs == 0
             condt2 = np.imag(re_mat[:, icol]) - icol == 0
             condt3 = tfr[:, icol] > threshold
-            indices = np.logical_and(condt1, condt2, condt3)
+            indices = condt1 & condt2 & condt3
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points,
+                                    np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)]
     elif method in ("rsp", "type1"):
         for icol in range(tfrcol):
             ti = timestamps[icol]
             condt1 = np.real(re_mat[:, icol]) - freqs == 0
             condt2 = np.imag(re_mat[:, icol]) - icol == 0
             condt3 = tfr[:, icol] > threshold
-            indices = np.logical_and(condt1, condt2, condt3)
+            indices = condt1 & condt2 & condt3
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / n_fbins
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points,
+                                    np.arange(indices.shape[0])[indices] / n_fbins]
     else:
         raise ValueError("Unknown time frequency representation.")
     return time_points, freq_points
-- 
2.43.0


From d2a124b3417ebcee9e8801521803fde383d5e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 24/64] fix: derive_window of a single-sample window is zero
 instead of NaN

---
 tftb/processing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/utils.py b/tftb/processing/utils.py
index d69690e..d8eebe4 100644
--- a/tftb/processing/utils.py
+++ b/tftb/processing/utils.py
@@ -67,7 +67,7 @@ def derive_window(window):
     """
     lh = (window.shape[0] - 1) / 2.0
     step_height = (window[0] + window[-1]) / 2.0
-    ramp = (window[0] - window[-1]) / (window.shape[0] - 1)
+    ramp = (window[0] - window[-1]) / max(window.shape[0] - 1, 1)
     base = np.arange(-lh, lh + 1)
     base = window - step_height - ramp * base
     base = np.hstack((np.array([0]), base, np.array([0])))
-- 
2.43.0


From e91bde2bf9dde6cdc6632e1e74a0e5eddab55727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:24 +0000
Subject: [PATCH 25/64] fix: gabor accumulates the Zak transform on its own
 grid

---
 tftb/processing/linear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 87db721..09d7f9e 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -130,7 +130,6 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
         window = np.exp(np.log(0.005) * np.linspace(-1, 1, nearest_odd(n_coeff)) ** 2)
         window = window / np.linalg.norm(window)
     m = int(q_oversample * signal.shape[0] / float(n_coeff))
-    mb = int(signal.shape[0] / float(n_coeff))
     nb = int(signal.shape[0] / float(m))
 
     # Zak transform?
@@ -145,7 +144,7 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
 
     msig = hn1.reshape(int(nb), int(m), order='F')
     dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(m)
-    mzh = np.zeros((m, mb))
+    mzh = np.zeros((m, nb))
     x = np.arange(1, m + 1, dtype=float)
     for l in range(q_oversample):  # NOQA: E741
         mod = modulo(x - l * m / q_oversample, m).astype(int)
-- 
2.43.0


From 48ef648f1f59f36b2955dad9fc788b2a522bc622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:27 +0000
Subject: [PATCH 26/64] fix: locfreq accepts every odd signal length

---
 tftb/processing/freq_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/freq_domain.py b/tftb/processing/freq_domain.py
index 33f7c72..509c41e 100644
--- a/tftb/processing/freq_domain.py
+++ b/tftb/processing/freq_domain.py
@@ -25,8 +25,8 @@ def locfreq(signal):
             raise TypeError
         else:
             signal = signal.ravel()
-    no2r = np.round(signal.shape[0] / 2.0)
     no2f = np.floor(signal.shape[0] / 2.0)
+    no2r = signal.shape[0] - no2f
     sig = np.fft.fft(signal)
     sig = np.abs(sig) ** 2
     sig = sig / sig.mean()
-- 
2.43.0


From 347ad3f90aba215dfa4649a643345e3e5b0f3c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:30 +0000
Subject: [PATCH 27/64] fix: loctime flattens row and column vectors as the
 other descriptors do

---
 tftb/processing/time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/time_domain.py b/tftb/processing/time_domain.py
index 24b0dd1..b6afb1d 100644
--- a/tftb/processing/time_domain.py
+++ b/tftb/processing/time_domain.py
@@ -18,7 +18,7 @@ def loctime(sig):
     >>> print("%.2f" % T)
     50.00
     """
-    if sig.ndim > 2:
+    if sig.ndim > 1:
         if 1 not in sig.shape:
             raise TypeError
         else:
-- 
2.43.0


From f149e5306bcdf6dfc7ef5418633a00006c6794cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 28/64] fix: fmconst has unit modulus and accepts any time
 centre

---
 tftb/generators/frequency_modulated.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 6857a66..ae08f12 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -32,7 +32,6 @@ def fmconst(n_points, fnorm=0.25, t0=None):
     else:
         tmt0 = np.arange(n_points) - t0
         y = np.exp(1j * 2.0 * np.pi * fnorm * tmt0)
-        y = y / np.real(y[int(t0)])
         iflaw = fnorm * np.ones((n_points,))
         return y, iflaw
 
-- 
2.43.0


From 7e5967a3dede610ed2124211625c18e58d7fc347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:24 +0000
Subject: [PATCH 29/64] fix: fmlin accepts a single point

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index ae08f12..0c1a92f 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -103,7 +103,7 @@ def fmlin(n_points, fnormi=0.0, fnormf=0.5, t0=None):
 
     else:
         y = np.arange(1, n_points + 1)
-        y = fnormi * (y - t0) + ((fnormf - fnormi) / (2.0 * (n_points - 1))) * \
+        y = fnormi * (y - t0) + ((fnormf - fnormi) / (2.0 * max(n_points - 1, 1))) * \
             ((y - 1) ** 2 - (t0 - 1) ** 2)
         y = np.exp(1j * 2.0 * np.pi * y)
         y = y / y[int(t0) - 1]
-- 
2.43.0


From a3d1a9bce83f3647bc93f49204b649091e036c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:27 +0000
Subject: [PATCH 30/64] fix: fmpar integrates its parabolic frequency law to
 get the phase

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 0c1a92f..8cdc9d6 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -165,7 +165,7 @@ def fmpar(n_points, coefficients):
     """
     a0, a1, a2 = coefficients
     t = np.arange(n_points)
-    phi = 2 * np.pi * (a0 * t + (a1 / 2 * t) ** 2 + (a2 / 3 * t) ** 3)
+    phi = 2 * np.pi * (a0 * t + a1 / 2.0 * t ** 2 + a2 / 3.0 * t ** 3)
     iflaw = a0 + a1 * t + a2 * (t ** 2)
     a, b = iflaw < 0, iflaw > 0.5
     aliasing = np.logical_or(a, b)
-- 
2.43.0


From 1a18ef2e03c4b94eca1add44bea0079a0755f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:31 +0000
Subject: [PATCH 31/64] fix: fmsin phase is zero at the time reference

---
 tftb/generators/frequency_modulated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 8cdc9d6..90f0ea4 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -252,8 +252,8 @@ def fmsin(n_points, fnormin=0.05, fnormax=0.45, period=None, t0=None,
     delta = 0.5 * (fnormax - fnormin)
     phi = -pm1 * np.arccos((fnorm0 - fnormid) / delta)
     t = np.arange(n_points) - t0
-    phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi)) -\
-        np.sin(phi)
+    phase = 2 * pi * fnormid * t + delta * period * (
+        np.sin(2 * pi * t / period + phi) - np.sin(phi))
     y = np.exp(1j * phase)
     iflaw = fnormid + delta * np.cos(2 * pi * t / period + phi)
     return y, iflaw
-- 
2.43.0


From 17f61690f87d4a6f996883bcc8122aaecd6ccfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:35 +0000
Subject: [PATCH 32/64] fix: fmodany checks column laws too and takes its phase
 reference at the t0-th sample

---
 tftb/generators/frequency_modulated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 90f0ea4..e083bd8 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -136,14 +136,14 @@ def fmodany(iflaw, t0=1):
         if iflaw.shape[1] != 1:
             raise TypeError("iflaw should be a column vector.")
 
-    elif np.amax(np.abs(iflaw)) > 0.5:
+    if np.amax(np.abs(iflaw)) > 0.5:
         raise TypeError("Elements of iflaw should be within -0.5 and 0.5")
 
-    if (t0 > iflaw.shape[0]) or (t0 == 0):
+    if (t0 > iflaw.shape[0]) or (t0 < 1):
         raise TypeError("T0 should be between 1 and len(iflaw)")
 
     y = np.exp(1j * 2.0 * pi * np.cumsum(iflaw))
-    y = y * np.conjugate(y[t0])
+    y = y * np.conjugate(y[int(t0) - 1])
     return y
 
 
-- 
2.43.0


From c3441075c9b68e91612255a00b179d8162f7b83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:12 +0000
Subject: [PATCH 33/64] fix: unilateral amexpos is zero, not NaN, long before
 the onset

---
 tftb/generators/amplitude_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/amplitude_modulated.py b/tftb/generators/amplitude_modulated.py
index 51bddc5..1a502ff 100644
--- a/tftb/generators/amplitude_modulated.py
+++ b/tftb/generators/amplitude_modulated.py
@@ -76,7 +76,7 @@ def amexpos(n_points, t0=None, spread=None, kind="bilateral"):
         if kind == "bilateral":
             y = np.exp(-sqrt(2 * np.pi) * np.abs(tmt0) / spread)
         else:
-            y = np.exp(-sqrt(np.pi) * tmt0 / spread) * (tmt0 >= 0.0)
+            y = np.exp(-sqrt(np.pi) * np.maximum(tmt0, 0) / spread) * (tmt0 >= 0.0)
         return y
 
 
-- 
2.43.0


From 735d935e8f15baa85c25f526cfd0bf3d20ab9845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:16 +0000
Subject: [PATCH 34/64] fix: keying generators default to at least one point
 per component

---
 tftb/generators/analytic_signals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 74231fb..11a23fa 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -23,7 +23,7 @@ def anaask(n_points, n_comp=None, f0=0.25):
     .. plot:: docstring_plots/generators/analytic_signals/anaask.py
     """
     if n_comp is None:
-        n_comp = round(n_points / 2.0)
+        n_comp = max(1, round(n_points / 2.0))
     if (f0 < 0) or (f0 > 0.5):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
@@ -53,7 +53,7 @@ def anabpsk(n_points, n_comp=None, f0=0.25):
     .. plot:: docstring_plots/generators/analytic_signals/anabpsk.py
     """
     if n_comp is None:
-        n_comp = round(n_points / 5.0)
+        n_comp = max(1, round(n_points / 5.0))
     if (f0 < 0) or (f0 > 0.5):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
@@ -82,7 +82,7 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     .. plot:: docstring_plots/generators/analytic_signals/anafsk.py
     """
     if n_comp is None:
-        n_comp = int(round(n_points / 5.0))
+        n_comp = max(1, int(round(n_points / 5.0)))
     m = np.ceil(n_points / n_comp)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
@@ -134,7 +134,7 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     .. plot:: docstring_plots/generators/analytic_signals/anaqpsk.py
     """
     if n_comp is None:
-        n_comp = round(n_points / 5.0)
+        n_comp = max(1, round(n_points / 5.0))
     if (f0 < 0) or (f0 > 0.5):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
-- 
2.43.0


From 9f5e699b1b38ed668a69801462b46366e3899caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:20 +0000
Subject: [PATCH 35/64] fix: anafsk and anaqpsk return exactly n_points samples

---
 tftb/generators/analytic_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 11a23fa..606e3b3 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -86,7 +86,7 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     m = np.ceil(n_points / n_comp)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
-    iflaw = np.repeat(freqs, n_comp).ravel()
+    iflaw = np.repeat(freqs, n_comp).ravel()[:n_points]
     y = np.exp(1j * 2 * pi * np.cumsum(iflaw))
     return y, iflaw
 
@@ -140,7 +140,7 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     m = int(np.ceil(n_points / n_comp))
     jumps = np.floor(4 * np.random.rand(m))
     jumps[jumps == 4] = 3
-    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()
+    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()[:n_points]
     tm = np.arange(n_points) - 1
     pm = 2 * np.pi * f0 * tm + pm0
     y = np.exp(1j * pm)
-- 
2.43.0


From b5ba5787c2e687de8f34754b01c3eb38dfae0066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:25 +0000
Subject: [PATCH 36/64] fix: anasing frequency grid no longer depends on
 rounding of the step

---
 tftb/generators/analytic_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 606e3b3..3f24134 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -169,7 +169,7 @@ def anasing(n_points, t0=None, h=0.0):
         t0 = n_points / 2.0
     if h <= 0:
         start, end = 1.0 / n_points, 0.5 - 1.0 / n_points
-        N = int(end / start)
+        N = int(n_points / 2.0) - 1
         f = np.linspace(start, end, N)
         y = np.zeros((int(n_points / 2.0),), dtype=complex)
         y[1:int(n_points / 2)] = (f ** (-1 - h)) * np.exp(-1j * 2 * pi * f * (t0 - 1))
-- 
2.43.0


From dc4715033d5368cfa705954e6277a6f2c75119f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:29 +0000
Subject: [PATCH 37/64] fix: atoms accepts a single atom given as a flat vector

---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 16e9532..0ba89c0 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -56,7 +56,7 @@ def atoms(n_points, coordinates):
     .. plot:: docstring_plots/generators/misc/atoms.py
     """
     if coordinates.ndim == 1:
-        coordinates = coordinates.reshape((coordinates.shape[0], 1))
+        coordinates = coordinates.reshape((1, coordinates.shape[0]))
     signal = np.zeros((n_points,), dtype=complex)
     n_atoms = coordinates.shape[0]
     for k in range(n_atoms):
-- 
2.43.0


From 76f36d6c87d75524431516414b10423ea99e3fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:33 +0000
Subject: [PATCH 38/64] fix: doppler amplitude has n_points samples for a zero
 target frequency

---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 0ba89c0..76986ae 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -113,7 +113,7 @@ def doppler(n_points, s_freq, f0, distance, v_target, t0=None, v_wave=340.0):
     dist = np.sqrt(distance ** 2 + (v_target * tmt0) ** 2)
     fm = np.exp(1j * 2 * pi * f0 * (tmt0 - dist / v_wave))
     if np.abs(f0) < np.spacing(1):
-        am = 0
+        am = np.zeros((n_points,))
     else:
         am = 1. / np.sqrt(dist)
     iflaw = (1 - v_target ** 2 * tmt0 / dist / v_wave) * f0 / s_freq
-- 
2.43.0


From 910bfde04a34867ad339956c5aaba93324b03fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:38 +0000
Subject: [PATCH 39/64] fix: klauder returns n_points samples when n_points is
 odd

---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 76986ae..fa6b0fe 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -145,7 +145,7 @@ def klauder(n_points, attenuation=10.0, f0=0.2):
     mod = np.exp(-2. * np.pi * attenuation * f) * f ** (2. * np.pi * attenuation * f0 - 0.5)
     wave = mod
     wave[0] = 0
-    a, b = wave[:int(n_points / 2)], wave[1:int(n_points / 2 + 1)][::-1]
+    a, b = wave[:n_points - int(n_points / 2)], wave[1:int(n_points / 2 + 1)][::-1]
     wave = np.hstack((a, b))
     wavet = np.fft.ifft(wave)
     wavet = np.fft.fftshift(wavet)
-- 
2.43.0


From b59ab4aa4ed71e336d83f63c78ea1d58e9e06ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:41 +0000
Subject: [PATCH 40/64] fix: gdpower supports degree one

---
 tftb/generators/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index fa6b0fe..f3385c0 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -215,7 +215,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
     elif degree == 1.:
         from tftb.generators.analytic_signals import anapulse
         t0 = n_points
-        x = anapulse(n_points, t0)
+        x = anapulse(n_points, t0 - 1)
     elif degree > 1.:
         d = n_points * 2. ** (degree - 1.) * rate
         tfx[:lnu] = np.exp(-1.0j * 2.0 * pi * (t0 * nu + d * nu ** degree / degree)) * am
@@ -229,7 +229,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
     if degree != 1.0:
         gpd = t0 + np.abs(np.sign(rate) - 1.0) / 2.0 * (n_points + 1.0) + d * nu ** (degree - 1.0)
     else:
-        gpd = t0 * np.ones((n_points / 2.0,))
+        gpd = t0 * np.ones((lnu,))
 
     x = x - x.mean()
     x = x / np.linalg.norm(x)
-- 
2.43.0


From 09c6b7287d7284775bf31e785cb317b007f0f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:46 +0000
Subject: [PATCH 41/64] fix: short noise vectors are one-dimensional and
 noisecg no longer crashes on them

---
 tftb/generators/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index fbc91e1..c696852 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -25,7 +25,7 @@ def noisecu(n_points):
     .. plot:: docstring_plots/generators/noise/noisecu.py
     """
     if n_points <= 2:
-        noise = (np.random.rand(n_points, 1) - 0.5 + 1j * (np.random.rand(n_points, 1) - 0.5)) * \
+        noise = (np.random.rand(n_points) - 0.5 + 1j * (np.random.rand(n_points) - 0.5)) * \
             np.sqrt(6)
     else:
         noise = np.random.rand(2 ** int(nextpow2(n_points)),) - 0.5
@@ -65,7 +65,7 @@ def noisecg(n_points, a1=None, a2=None):
     """
     assert n_points > 0
     if n_points <= 2:
-        noise = (np.random.randn(n_points, 1.) + 1j * np.random.randn(n_points, 1.)) / np.sqrt(2.)
+        noise = (np.random.randn(n_points) + 1j * np.random.randn(n_points)) / np.sqrt(2.)
     else:
         noise = np.random.normal(size=int(2. ** nextpow2(float(n_points)),))
         noise = hilbert(noise) / noise.std() / np.sqrt(2.)
-- 
2.43.0


From 6bd6fe364dbe584f25070905bbb6a9976dc612df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:50 +0000
Subject: [PATCH 42/64] fix: dopnoise returns n_points samples

---
 tftb/generators/noise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index c696852..4732250 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -117,10 +117,10 @@ def dopnoise(n_points, s_freq, f_target, distance, v_target,
     y = np.zeros((2 * n_points,))
     for t in range(2, 2 * n_points):
         y[t] = x[t] - rr * (x[t - 2] + y[t - 2]) + r2 * np.cos(2.0 * np.pi * iflaw[t]) * y[t - 1]
-    y = hilbert(y[(n_points + 1): (2 * n_points + 1)]) /\
-        np.sqrt(dist[(n_points + 1): (2 * n_points + 1)])
+    y = hilbert(y[n_points: (2 * n_points)]) /\
+        np.sqrt(dist[n_points: (2 * n_points)])
     y = y / np.sqrt(np.sum(np.abs(y) ** 2))
-    iflaw = iflaw[(n_points + 1):(2 * n_points + 1)]
+    iflaw = iflaw[n_points:(2 * n_points)]
     return y, iflaw
 
 
-- 
2.43.0


From 3095e76ad5821bf29708223a41fe2b286eaf9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:54 +0000
Subject: [PATCH 43/64] fix: scale works for any signal length and number of
 voices

---
 tftb/generators/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tftb/generators/utils.py b/tftb/generators/utils.py
index 7ecea4c..90603e9 100644
--- a/tftb/generators/utils.py
+++ b/tftb/generators/utils.py
@@ -58,7 +58,7 @@ def scale(X, a, fmin, fmax, N):
     q = (fmax / float(fmin)) ** (1.0 / (N - 1.0))
     geo_f = fmin * np.exp((k - 1) * np.log(q))
     t = np.arange(X.shape[0]) - M - 1
-    tfmatx = np.exp(-2 * 1j * np.dot(t.reshape(128, 1), geo_f.reshape(1, 128)) * np.pi)
+    tfmatx = np.exp(-2 * 1j * np.dot(t.reshape(-1, 1), geo_f.reshape(1, -1)) * np.pi)
     ZS = np.dot(Z, tfmatx)
     ZS = np.hstack((ZS, np.zeros((N,))))
 
@@ -68,7 +68,7 @@ def scale(X, a, fmin, fmax, N):
     beta = (p / float(N) - 1.0) / (2 * np.log(q))
 
     # Inverse mellin and fourier transform.
-    Mmax = np.amax(np.ceil(X.shape[0] / 2.0 * a))
+    Mmax = int(np.amax(np.ceil(X.shape[0] / 2.0 * a)))
     if isinstance(a, np.ndarray):
         S = np.zeros((2 * Mmax, a.shape[0]), dtype=complex)
     else:
@@ -76,10 +76,10 @@ def scale(X, a, fmin, fmax, N):
         ptr = 0
         DMS = np.exp(-2 * np.pi * 1j * beta * np.log(a)) * MS
         DS = np.fft.fft(np.fft.fftshift(DMS), axis=0)
-        Mcurrent = np.ceil(a * X.shape[0] / 2)
+        Mcurrent = int(np.ceil(a * X.shape[0] / 2))
         t = np.arange(-Mcurrent, Mcurrent) - 1
-        itfmatx = np.exp(2 * 1j * np.pi * np.dot(t.reshape((256, 1)),
-                                                 geo_f.reshape((1, 128))))
+        itfmatx = np.exp(2 * 1j * np.pi * np.dot(t.reshape((-1, 1)),
+                                                 geo_f.reshape((1, -1))))
         dilate_sig = np.zeros((2 * Mcurrent,), dtype=complex)
         for kk in range(2 * int(Mcurrent)):
             dilate_sig[kk] = trapezoid(itfmatx[kk, :] * DS[:N], geo_f)
-- 
2.43.0


From 6d93f12cabfb9784f02907ae17b78ff19571263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 44/64] fix: scale() analyses the requested band, from fmin to
 fmax

---
 tftb/generators/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/utils.py b/tftb/generators/utils.py
index 90603e9..61baaa6 100644
--- a/tftb/generators/utils.py
+++ b/tftb/generators/utils.py
@@ -56,7 +56,7 @@ def scale(X, a, fmin, fmax, N):
     # Geometric sampling of the analyzed spectrum
     k = np.arange(N)
     q = (fmax / float(fmin)) ** (1.0 / (N - 1.0))
-    geo_f = fmin * np.exp((k - 1) * np.log(q))
+    geo_f = fmin * np.exp(k * np.log(q))
     t = np.arange(X.shape[0]) - M - 1
     tfmatx = np.exp(-2 * 1j * np.dot(t.reshape(-1, 1), geo_f.reshape(1, -1)) * np.pi)
     ZS = np.dot(Z, tfmatx)
-- 
2.43.0


From 120c74b05709919ef08739f3e161e6ea222a95f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:23 +0000
Subject: [PATCH 45/64] fix: lambdak is 1 at u = 0 for every kind (was NaN)

---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 290b8ac..1bbad91 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -478,14 +478,14 @@ class BertrandDistribution(AffineDistribution):
 def lambdak(u, k):
     method_lookup = {"bertrand": 0, "unterberger": -1, "d_flandrin": 0.5, "aspwv": 2}
     k = method_lookup[k]
+    if u == 0:
+        return 1
     if k not in (0, 1):
         y = k * (np.exp(-u) - 1) / (np.exp(-k * u) - 1)
         y = y ** (1 / (k - 1))
     elif k == 1:
         y = np.exp(1 + u * np.exp(-u) / (np.exp(-u) - 1))
     elif k == 0:
-        if u == 0:
-            return 1
         y = -u / (np.exp(-u) - 1)
     return y
 
-- 
2.43.0


From f6fb3e9f9f5e8a71d3d95718f17726c03c5fc294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:33 +0000
Subject: [PATCH 46/64] fix: reassigned Morlet and smoothed pseudo Wigner-Ville
 accept one instant

---
 tftb/processing/reassigned.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index de4e989..19602fe 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -263,7 +263,9 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
     k = 0.001
     tcol = timestamps.shape[0]
     deltat = timestamps[1:] - timestamps[:-1]
-    if deltat.min() != deltat.max():
+    if deltat.size == 0:
+        dt = 1
+    elif deltat.min() != deltat.max():
         raise ValueError("Time instants must be regularly sampled.")
     else:
         dt = deltat.min()
@@ -396,7 +398,9 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
 
     tcol = timestamps.shape[0]
     deltat = timestamps[1:] - timestamps[:-1]
-    if deltat.min() != deltat.max():
+    if deltat.size == 0:
+        dt = 1
+    elif deltat.min() != deltat.max():
         raise ValueError("Time instants must be regularly sampled.")
     else:
         dt = deltat.min()
-- 
2.43.0


From 4019fdc5951f7eb36d19672b800884cf95645c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:57 +0000
Subject: [PATCH 47/64] fix: fmpower is finite at every sample and accepts
 integer degrees

---
 tftb/generators/frequency_modulated.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index e083bd8..4b5f489 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -202,8 +202,11 @@ def fmpower(n_points, k, coefficients):
         p2 = coefficients[2:]
         c = (p2[1] - p1[1]) / (1.0 / (p2[0] ** k) - 1.0 / (p1[0] ** k))
         f0 = p1[1] - c / (p1[0] ** k)
-    t = np.arange(n_points)
-    phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
+    t = np.arange(1, n_points + 1, dtype=float)
+    if k == 1:
+        phi = 2 * np.pi * (f0 * t + c * np.log(np.abs(t)))
+    else:
+        phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
     iflaw = (f0 + c * np.abs(t) ** (-k))
     a, b = iflaw < 0, iflaw > 0.5
     aliasing = np.logical_or(a, b)
-- 
2.43.0


From c3dbc557b10122dddc45af632a3868d5f5afea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 48/64] fix: contour plots beside the signal need one frequency
 per displayed row

---
 tftb/processing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index b016fd7..c6d9940 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -87,7 +87,7 @@ class BaseTFRepresentation(object):
                     if self.isaffine:
                         contour_y = np.linspace(self.fmin, self.fmax, self.n_voices)
                     else:
-                        contour_y = np.linspace(0, 0.5, self.signal.shape[0])
+                        contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
                 else:
                     contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
             contour_x, contour_y = np.meshgrid(contour_x, contour_y)
-- 
2.43.0


From e51b6387d2b0e1d64d0ad4d28e504f053c2ae7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 49/64] fix: surface and wireframe plots use the grid of the
 representation

---
 tftb/processing/base.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index c6d9940..e07b7b0 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -205,18 +205,14 @@ class BaseTFRepresentation(object):
                 from mpl_toolkits.mplot3d import Axes3D
                 fig = plt.figure()
                 ax = fig.add_subplot(projection="3d")
-                x = np.arange(self.signal.shape[0])
-                y = np.linspace(0, 0.5, self.signal.shape[0])
-                X, Y = np.meshgrid(x, y)
+                X, Y = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
                 ax.plot_surface(X, Y, np.abs(self.tfr), cmap=plt.cm.jet)
                 if default_annotation:
                     ax.set_zlabel("Amplitude")
             elif kind == "wireframe":
                 from mpl_toolkits.mplot3d import Axes3D  # NOQA
                 ax = fig.add_subplot(projection="3d")
-                x = np.arange(self.signal.shape[0])
-                y = np.linspace(0, 0.5, self.signal.shape[0])
-                X, Y = np.meshgrid(x, y)
+                X, Y = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
             else:
-- 
2.43.0


From 9d3308aa258fa763675104763f5ca6ef2522bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 50/64] fix: the Page plot shows half of the rows, over half of
 the frequencies

---
 tftb/processing/cohen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 5d4d6e2..8b7e2e5 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -62,15 +62,16 @@ class PageRepresentation(BaseTFRepresentation):
         return self.tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
-        tfr = self.tfr
+        tfr, freqs = self.tfr, self.freqs
         try:
+            self.freqs = self.freqs[:(self.tfr.shape[0] // 2)]
             self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
             self.tfr = np.abs(self.tfr) ** 2
             _threshold = np.amax(self.tfr) * threshold
             self.tfr = np.where(self.tfr <= _threshold, 0.0, self.tfr)
             super(PageRepresentation, self).plot(kind=kind, **kwargs)
         finally:
-            self.tfr = tfr
+            self.tfr, self.freqs = tfr, freqs
 
 
 class PseudoPageRepresentation(PageRepresentation):
-- 
2.43.0


From 3c8a8ca5b005de36af309ca946f6ac9afaa2deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 51/64] fix: the Margenau-Hill plot starts at the first time
 instant

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 8b7e2e5..378cbd7 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -124,7 +124,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
                 self.tfr = np.abs(self.tfr) ** 2
             _threshold = np.amax(self.tfr) * threshold
             self.tfr = np.where(self.tfr <= _threshold, 0.0, self.tfr)
-            extent = [0, self.ts.max(), 0, 0.5]
+            extent = [self.ts.min(), self.ts.max(), 0, 0.5]
             super(MargenauHillDistribution, self).plot(kind=kind, extent=extent, **kwargs)
         finally:
             self.tfr = tfr
-- 
2.43.0


From 0e51315594bdd8d4c8567518f7a8f73539733bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 52/64] fix: draw on the axes given to plot()

---
 tftb/processing/base.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index e07b7b0..da81b37 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -195,29 +195,24 @@ class BaseTFRepresentation(object):
                 self._annotate_signal(axTime)
                 self._annotate_spectrum(axSpec)
         else:
-            fig = plt.figure()
+            if ax is None:
+                projection = "3d" if kind in ("surf", "wireframe") else None
+                ax = plt.figure().add_subplot(111, projection=projection)
             if kind == "cmap":
-                ax = fig.add_subplot(111)
                 ax.imshow(self.tfr,
                           aspect='auto', cmap=cmap, origin='lower', extent=extent,
                           **kwargs)
             elif kind == "surf":
-                from mpl_toolkits.mplot3d import Axes3D
-                fig = plt.figure()
-                ax = fig.add_subplot(projection="3d")
                 X, Y = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
                 ax.plot_surface(X, Y, np.abs(self.tfr), cmap=plt.cm.jet)
                 if default_annotation:
                     ax.set_zlabel("Amplitude")
             elif kind == "wireframe":
-                from mpl_toolkits.mplot3d import Axes3D  # NOQA
-                ax = fig.add_subplot(projection="3d")
                 X, Y = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
             else:
                 t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
-                ax = fig.add_subplot(111)
                 ax.contour(t, f, self.tfr, **kwargs)
             if default_annotation:
                 grid = kwargs.get('grid', True)
-- 
2.43.0


From a95a88665990738bbc46dde810e4e67bf22f46d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 53/64] fix: contour levels given to plot() reach the contour
 plot

---
 tftb/processing/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index da81b37..9c3298c 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -213,6 +213,8 @@ class BaseTFRepresentation(object):
                                   rstride=3, cstride=3)
             else:
                 t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
+                if levels is not None:
+                    kwargs['levels'] = levels
                 ax.contour(t, f, self.tfr, **kwargs)
             if default_annotation:
                 grid = kwargs.get('grid', True)
-- 
2.43.0


From 3409ef9372dbfb0b61a67dda9453994941df6a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 54/64] fix: the grid option of plot() is not an option of the
 drawing functions

---
 tftb/processing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 9c3298c..6811dcd 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -176,6 +176,7 @@ class BaseTFRepresentation(object):
         freq_x = kwargs.pop('freq_x', None)
         freq_y = kwargs.pop('freq_y', None)
         cmap = kwargs.pop("cmap", plt.cm.gray)
+        grid = kwargs.pop('grid', True)
 
         if show_tf:
             fig, axTF = plt.subplots(figsize=(10, 8))
@@ -217,7 +218,6 @@ class BaseTFRepresentation(object):
                     kwargs['levels'] = levels
                 ax.contour(t, f, self.tfr, **kwargs)
             if default_annotation:
-                grid = kwargs.get('grid', True)
                 ax.grid(grid)
                 ax.set_xlabel("Time")
                 ax.set_ylabel("Normalized Frequency")
-- 
2.43.0


From 7e7c4438cce6253514b9ec0f9411bf7d5f0d707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:14 +0000
Subject: [PATCH 55/64] fix: the spectrum beside an affine representation is
 drawn against its own frequencies

---
 tftb/processing/affine.py |  6 +-----
 tftb/processing/base.py   | 10 ++++++----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 1bbad91..aeb0160 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -111,12 +111,8 @@ class AffineDistribution(BaseTFRepresentation):
         try:
             _thresh = np.amax(self.tfr) * threshold
             self.tfr = np.where(self.tfr <= _thresh, 0, self.tfr)
-            freq_y = kwargs.pop(
-                "freq_y", np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
-            )
-
             super(AffineDistribution, self).plot(
-                kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
+                kind=kind, show_tf=show_tf, **kwargs
             )
         finally:
             self.tfr = tfr
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 6811dcd..fc8f20c 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -56,7 +56,7 @@ class BaseTFRepresentation(object):
     def _get_spectrum(self):
         if not self.isaffine:
             return np.fft.fftshift(np.abs(np.fft.fft(self.signal)) ** 2)
-        nf2 = self.tfr.shape[0]
+        nf2 = max(self.tfr.shape[0], (self.signal.shape[0] + 1) // 2)
         spec = np.abs(np.fft.fft(self.signal[self.ts.min():(self.ts.max() + 1)],
                                  2 * nf2)) ** 2
         return spec[:nf2]
@@ -122,17 +122,19 @@ class BaseTFRepresentation(object):
     def _plot_spectrum(self, ax, freq_x, freq_y):
         k = int(np.floor(self.signal.shape[0] / 2.0))
         if freq_x is None:
-            freq_x = self._get_spectrum()[::-1][:k]
+            freq_x = self._get_spectrum()
+            if not self.isaffine:
+                freq_x = freq_x[::-1][:k]
         if freq_y is None:
             if self.isaffine:
-                freq_y = self.freqs
+                freq_y = np.linspace(0, 0.5, freq_x.shape[0], endpoint=False)
             else:
                 freq_y = np.arange(k)
         ax.plot(freq_x, freq_y)
         if not self.isaffine:
             ax.set_ylim(0, freq_y.shape[0] - 1)
         else:
-            ax.set_ylim(freq_y[0], freq_y[-1])
+            ax.set_ylim(self.fmin, self.fmax)
 
     def _annotate_spectrum(self, ax):
         ax.set_ylabel('Spectrum')
-- 
2.43.0


From 54be3ce34faff84d94517aa1a78c65ce23086505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 56/64] fix: plots of affine representations are drawn at the
 frequencies of their voices

---
 tftb/processing/affine.py |  4 ++++
 tftb/processing/base.py   | 18 ++++++++----------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index aeb0160..4c984ba 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -106,6 +106,9 @@ class AffineDistribution(BaseTFRepresentation):
         beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))
         return beta, mellin1, mellin2
 
+    def _displayed_freqs(self):
+        return self.freqs
+
     def plot(self, kind="contour", show_tf=True, threshold=0.05, **kwargs):
         tfr = self.tfr
         try:
@@ -174,6 +177,7 @@ class Scalogram(AffineDistribution):
 
     def run(self):
         f = np.logspace(np.log10(self.fmin), np.log10(self.fmax), self.n_voices)
+        self.freqs = f
         a = np.logspace(
             np.log10(self.fmax / float(self.fmin)), np.log10(1), self.n_voices
         )
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index fc8f20c..975079b 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -74,6 +74,10 @@ class BaseTFRepresentation(object):
         h += 1 - (h % 2)
         return hamming(h)
 
+    def _displayed_freqs(self):
+        """Frequencies of the rows of the plots."""
+        return np.linspace(0, 0.5, self.tfr.shape[0])
+
     def _plot_tfr(self, ax, kind, extent, contour_x=None, contour_y=None,
                   levels=None, show_tf=True, cmap=plt.cm.gray):
         if kind == "cmap":
@@ -83,13 +87,7 @@ class BaseTFRepresentation(object):
             if contour_x is None:
                 contour_x = self.ts
             if contour_y is None:
-                if show_tf:
-                    if self.isaffine:
-                        contour_y = np.linspace(self.fmin, self.fmax, self.n_voices)
-                    else:
-                        contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
-                else:
-                    contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
+                contour_y = self._displayed_freqs()
             contour_x, contour_y = np.meshgrid(contour_x, contour_y)
             if levels is not None:
                 ax.contour(contour_x, contour_y, self.tfr, levels)
@@ -206,16 +204,16 @@ class BaseTFRepresentation(object):
                           aspect='auto', cmap=cmap, origin='lower', extent=extent,
                           **kwargs)
             elif kind == "surf":
-                X, Y = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
+                X, Y = np.meshgrid(self.ts, self._displayed_freqs())
                 ax.plot_surface(X, Y, np.abs(self.tfr), cmap=plt.cm.jet)
                 if default_annotation:
                     ax.set_zlabel("Amplitude")
             elif kind == "wireframe":
-                X, Y = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
+                X, Y = np.meshgrid(self.ts, self._displayed_freqs())
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
             else:
-                t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
+                t, f = np.meshgrid(self.ts, self._displayed_freqs())
                 if levels is not None:
                     kwargs['levels'] = levels
                 ax.contour(t, f, self.tfr, **kwargs)
-- 
2.43.0


From 519e7aebb3b43ecb39030fa07c60e5618ab0504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:48 +0000
Subject: [PATCH 57/64] fix: the scalogram honours the instants it is asked for

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 4c984ba..47f1129 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -164,7 +164,7 @@ class Scalogram(AffineDistribution):
     def __init__(
         self, signal, fmin=None, fmax=None, n_voices=None, waveparams=None, **kwargs
     ):
-        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax)
+        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax, **kwargs)
         if waveparams is None:
             waveparams = np.sqrt(signal.shape[0])
         if n_voices is None:
-- 
2.43.0


From d5b1617a5a003dc4a5520eda86d30f80b5e4b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:48 +0000
Subject: [PATCH 58/64] fix: the normalisation band of affine representations
 is measured on the signal

---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 47f1129..7edb55b 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -75,8 +75,8 @@ class AffineDistribution(BaseTFRepresentation):
     def _normalize(self):
         SP1 = np.fft.fft(hilbert(self.s1), axis=0)
         SP2 = np.fft.fft(hilbert(self.s2), axis=0)
-        indmin = 1 + int(np.round(self.fmin * (self.ts.shape[0] - 2)))
-        indmax = 1 + int(np.round(self.fmax * (self.ts.shape[0] - 2)))
+        indmin = 1 + int(np.round(self.fmin * (self.signal.shape[0] - 2)))
+        indmax = 1 + int(np.round(self.fmax * (self.signal.shape[0] - 2)))
         sp1_ana = SP1[(indmin - 1): indmax]
         sp2_ana = SP2[(indmin - 1): indmax]
         return sp1_ana, sp2_ana
-- 
2.43.0


From b0135f98239346f26d3e31a0e525fe0a18019882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:10 +0000
Subject: [PATCH 59/64] fix: plots of Page representations honour sqmod

---
 tftb/processing/cohen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 378cbd7..237eb46 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -66,7 +66,8 @@ class PageRepresentation(BaseTFRepresentation):
         try:
             self.freqs = self.freqs[:(self.tfr.shape[0] // 2)]
             self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
-            self.tfr = np.abs(self.tfr) ** 2
+            if sqmod:
+                self.tfr = np.abs(self.tfr) ** 2
             _threshold = np.amax(self.tfr) * threshold
             self.tfr = np.where(self.tfr <= _threshold, 0.0, self.tfr)
             super(PageRepresentation, self).plot(kind=kind, **kwargs)
-- 
2.43.0


From cf851aeaaf8b9cd40b6fca861c85cbb26c7f769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:28 +0000
Subject: [PATCH 60/64] fix: nearest_odd accepts any sequence of ints, as
 documented

---
 tftb/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 0045717..07914b4 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -104,7 +104,7 @@ def nearest_odd(N):
     >>> nearest_odd(3)
     3.0
     """
-    if isinstance(N, (list, np.ndarray)):
+    if np.ndim(N) > 0:
         y = np.floor(N)
         y[np.remainder(y, 2) == 0] += 1
         return y.astype(int)
-- 
2.43.0


From 7f842c0b2667097b02874ce91e13762522d207f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:28 +0000
Subject: [PATCH 61/64] fix: nextpow2 accepts arrays, as documented

---
 tftb/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tftb/utils.py b/tftb/utils.py
index 07914b4..81fe485 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -56,6 +56,8 @@ def nextpow2(n):
     >>> print(nextpow2(x))
     [ 0.  1.  2.  2.  3.  3.  3.  3.]
     """
+    if np.ndim(n) > 0:
+        return np.ceil(np.log2(n))
     return math.ceil(math.log2(n))
 
 
-- 
2.43.0


From 0f2a736c27e472f0bdec14e0e2f2bbc22748f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:28 +0000
Subject: [PATCH 62/64] fix: izak accepts one-dimensional input

---
 tftb/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/utils.py b/tftb/utils.py
index 81fe485..6fdf034 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -36,6 +36,7 @@ def izak(x):
         n, m = x.shape
     else:
         n, m = x.shape[0], 1
+        x = x.reshape(n, m)
     sig = np.zeros((n * m, ), dtype=complex)
     for im in range(m):
         sig[im + np.arange(n) * m] = np.sqrt(n) * np.fft.ifft(x[:, im], axis=0)
-- 
2.43.0


From 7f775c5700e2ae45ba44b61576871e4c0ba076a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:44 +0000
Subject: [PATCH 63/64] fix: modulo accepts complex arrays with real elements

---
 tftb/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 6fdf034..6a01502 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -132,7 +132,7 @@ def modulo(x, N):
     >>> print(modulo(range(1, 11), 2))
     [1 2 1 2 1 2 1 2 1 2]
     """
-    if any(np.isreal(x)):
+    if np.isrealobj(x):
         y = np.mod(x, N)
         y[y == 0] = N
     else:
-- 
2.43.0


From 54b1a5562ea3a55133db8851e33b061c9e144268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 64/64] fix: the default band of the wide band ambiguity
 function comes from the spectrum

---
 tftb/processing/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index ea9f52d..6c53550 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -35,7 +35,7 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
 
     # determine default values for fmin, fmax
     if (fmin is None) or (fmax is None):
-        STF = np.fft.fftshift(s_ana)
+        STF = np.fft.fft(np.fft.fftshift(s_ana))
         sp = np.abs(STF[:m]) ** 2
         maxsp = np.amax(sp)
         f = np.linspace(0, 0.5, m + 1)
-- 
2.43.0

