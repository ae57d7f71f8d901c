From e97c2682b413271fd28c2cb814e9b8ae6ca6a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 001/114] fix: label every frequency bin when the number of
 bins is odd

---
 tftb/processing/base.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index e44c297..327f3b4 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -40,13 +40,7 @@ class BaseTFRepresentation(object):
         if fwindow is None:
             fwindow = self._make_window()
         self.fwindow = fwindow
-        if self.n_fbins % 2 == 0:
-            freqs = np.r_[np.arange(self.n_fbins / 2),
-                          np.arange(-self.n_fbins / 2, 0)]
-        else:
-            freqs = np.r_[np.arange((self.n_fbins - 1) / 2),
-                          np.arange(-(self.n_fbins - 1) / 2, 0)]
-        self.freqs = freqs / self.n_fbins
+        self.freqs = np.fft.fftfreq(self.n_fbins)
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
 
     def _get_spectrum(self):
-- 
2.43.0


From 2dd0d4e0fe9207b422dfd521058b41cf6f7eee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:43 +0000
Subject: [PATCH 002/114] fix: Wigner-Ville with fewer frequency bins than
 samples

---
 tftb/processing/cohen.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index ae9ea6b..7b53c01 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -149,7 +149,7 @@ class WignerVilleDistribution(BaseTFRepresentation):
     name = "wigner-ville"
 
     def run(self):
-        tausec = round(self.n_fbins / 2.0)
+        tausec = (self.n_fbins + 1) // 2
         winlength = tausec - 1
         taulens = np.min(np.c_[np.arange(self.signal.shape[0]),
                                self.signal.shape[0] - np.arange(self.signal.shape[0]) - 1,
@@ -161,10 +161,11 @@ class WignerVilleDistribution(BaseTFRepresentation):
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.signal[icol + tau] * \
                 conj_signal[icol - tau]
-            if (icol <= self.signal.shape[0] - tausec) and (icol >= tausec + 1):
-                self.tfr[tausec, icol] = self.signal[icol + tausec, 0] * \
-                    np.conj(self.signal[icol - tausec, 0]) + \
-                    self.signal[icol - tausec, 0] * conj_signal[icol + tausec, 0]
+            if (self.n_fbins % 2 == 0) and (icol >= tausec) and \
+                    (icol < self.signal.shape[0] - tausec):
+                self.tfr[tausec, icol] = 0.5 * (
+                    self.signal[icol + tausec] * conj_signal[icol - tausec] +
+                    self.signal[icol - tausec] * conj_signal[icol + tausec])
         self.tfr = np.fft.fft(self.tfr, axis=0)
         self.tfr = np.real(self.tfr)
         self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
-- 
2.43.0


From 3351f870d5982656d4b3d9193770e59f11522b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:46 +0000
Subject: [PATCH 003/114] fix: pseudo Wigner-Ville with a window longer than
 the number of frequency bins

---
 tftb/processing/cohen.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 7b53c01..aa813a4 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -196,19 +196,20 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
         lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
-                          np.round(self.n_fbins / 2.0), lh)
+                          (self.n_fbins + 1) // 2 - 1, lh)
             taumax = np.min(taumaxvals)
             tau = np.arange(-taumax, taumax + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol + tau] * \
                 np.conj(self.signal[icol - tau])
-            tau = np.round(self.n_fbins / 2.0)
-            if (icol <= self.signal.shape[0] - tau) and (icol >= tau + 1) and (tau <= lh):
-                self.tfr[int(tau), icol] = self.fwindow[lh + tau] * \
-                    self.signal[icol + tau, 0] * np.conj(self.signal[icol - tau, 0]) + \
-                    self.fwindow[lh - tau] * self.signal[icol - tau, 0] * \
-                    np.conj(self.signal[icol + tau, 0])
-                self.tfr[int(tau), icol] *= 0.5
+            tau = self.n_fbins // 2
+            if (self.n_fbins % 2 == 0) and (icol >= tau) and \
+                    (icol < self.signal.shape[0] - tau) and (tau <= lh):
+                self.tfr[tau, icol] = self.fwindow[lh + tau] * \
+                    self.signal[icol + tau] * np.conj(self.signal[icol - tau]) + \
+                    self.fwindow[lh - tau] * self.signal[icol - tau] * \
+                    np.conj(self.signal[icol + tau])
+                self.tfr[tau, icol] *= 0.5
 
         self.tfr = np.fft.fft(self.tfr, axis=0)
         return np.real(self.tfr), self.ts, self.freqs
-- 
2.43.0


From 3f4d019cb8cf7b47a8e4375768392c3473b1388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:48 +0000
Subject: [PATCH 004/114] fix: pseudo Wigner-Ville frequency axis covers [0,
 0.5) like its rows do

---
 tftb/processing/cohen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index aa813a4..2238cd6 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -212,6 +212,7 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
                 self.tfr[tau, icol] *= 0.5
 
         self.tfr = np.fft.fft(self.tfr, axis=0)
+        self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
         return np.real(self.tfr), self.ts, self.freqs
 
     def plot(self, **kwargs):
-- 
2.43.0


From 413aed465622e8d145eb8843c4ffec50bf7f6b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:28 +0000
Subject: [PATCH 005/114] fix: smoothed pseudo Wigner-Ville lag products placed
 one lag off

---
 tftb/processing/cohen.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 2238cd6..ecd0dcc 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -272,7 +272,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
         g2 = g2 / np.sum(g2)
         signal_idx = (ti - points - 1).astype(int)
         tfr[0, icol] = np.sum(g2 * signal[signal_idx] * np.conj(signal[signal_idx]))
-        for tau in range(int(taumax)):
+        for tau in range(1, int(taumax) + 1):
             points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
                                min([lg, ti - 1 - tau]) + 1)
             lg_points = (lg + points).astype(int)
@@ -281,22 +281,23 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
             idx1 = (ti + tau - points - 1).astype(int)
             idx2 = (ti - tau - points - 1).astype(int)
             R = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            tfr[1 + tau, icol] = fwindow[lh + tau + 1] * R
+            tfr[tau, icol] = fwindow[lh + tau] * R
             R = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            tfr[freq_bins - tau - 1, icol] = fwindow[lh - tau + 1] * R
-        tau = np.round(freq_bins / 2.0)
-        if (ti <= signal.shape[0] - tau) and (ti >= tau + 1) and (tau <= lh):
+            tfr[freq_bins - tau, icol] = fwindow[lh - tau] * R
+        tau = freq_bins // 2
+        if (ti <= signal.shape[0] - tau) and (ti >= tau + 1) and (tau <= lh) and \
+                (freq_bins % 2 == 0):
             points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
                                min([lg, ti - 1 - tau]) + 1)
-            lg_points = (lg + 1 + points).astype(int)
+            lg_points = (lg + points).astype(int)
             g2 = twindow[lg_points]
             g2 = g2 / np.sum(g2)
-            idx1 = (ti + tau - points).astype(int)
-            idx2 = (ti - tau - points).astype(int)
+            idx1 = (ti + tau - points - 1).astype(int)
+            idx2 = (ti - tau - points - 1).astype(int)
             _x = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            _x *= fwindow[(lh + tau + 1).astype(int)]
+            _x *= fwindow[lh + tau]
             _y = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            _y *= fwindow[(lh - tau + 1).astype(int)]
+            _y *= fwindow[lh - tau]
             tfr[tau, icol] = (_x + _y) * 0.5
     tfr = np.fft.fft(tfr, axis=0)
     return np.real(tfr)
-- 
2.43.0


From 488870e7fe72bfbaf8dbba41d77f4c47735cdcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 006/114] fix: run() gives the same representation when called
 again

---
 tftb/processing/affine.py | 1 +
 tftb/processing/cohen.py  | 7 +++++++
 tftb/processing/linear.py | 1 +
 3 files changed, 9 insertions(+)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index fd51e1e..5a1e29a 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -177,6 +177,7 @@ class Scalogram(AffineDistribution):
         a = np.logspace(
             np.log10(self.fmax / float(self.fmin)), np.log10(1), self.n_voices
         )
+        self.tfr = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
         wt = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
         if self.waveparams > 0:
             for ptr in range(self.n_voices):
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index ecd0dcc..25c6388 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -20,6 +20,7 @@ class Spectrogram(ShortTimeFourierTransform):
     name = "spectrogram"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([round(self.n_fbins / 2.0) - 1, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts - 1],
@@ -49,6 +50,7 @@ class PageRepresentation(BaseTFRepresentation):
     name = "page representation"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min([self.n_fbins - ti,
@@ -81,6 +83,7 @@ class PseudoPageRepresentation(PageRepresentation):
         return fwindow / fwindow[lh]
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) / 2
         for icol in range(self.ts.shape[0]):
             tau = np.arange(min([self.n_fbins - 1, lh, icol - 1]) + 1)
@@ -96,6 +99,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
     name = "margenau-hill"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
@@ -131,6 +135,7 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
         return fwindow / fwindow[lh]
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         xrow = self.signal.shape[0]
         for icol in range(self.ts.shape[0]):
@@ -149,6 +154,7 @@ class WignerVilleDistribution(BaseTFRepresentation):
     name = "wigner-ville"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         tausec = (self.n_fbins + 1) // 2
         winlength = tausec - 1
         taulens = np.min(np.c_[np.arange(self.signal.shape[0]),
@@ -193,6 +199,7 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
     name = "pseudo winger-ville"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 8615525..bbe7a56 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -55,6 +55,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         .. math:: X[m, w] = \sum_{n=-\infty}^{\infty}x[n]w[n - m]e^{-j\omega n}
 
         Where :math:`w` is a Hamming window."""
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([round(self.n_fbins / 2.0), lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
-- 
2.43.0


From e74f78fd35372c973e24b1d3f9259e17e21558f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:16 +0000
Subject: [PATCH 007/114] fix: Page representation can be plotted

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 25c6388..93b8830 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -62,7 +62,7 @@ class PageRepresentation(BaseTFRepresentation):
         return self.tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
-        self.tfr = self.tfr[:(self.tfr.shape[0] / 2), :]
+        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
         self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-- 
2.43.0


From 1056c3689e2d8f2020073c6ecb90a41938fa343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:18 +0000
Subject: [PATCH 008/114] fix: contour, surface and wireframe plots use the
 axes of the plotted rows

---
 tftb/processing/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 327f3b4..bb60983 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -77,7 +77,7 @@ class BaseTFRepresentation(object):
                     if self.isaffine:
                         contour_y = np.linspace(self.fmin, self.fmax, self.n_voices)
                     else:
-                        contour_y = np.linspace(0, 0.5, self.signal.shape[0])
+                        contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
                 else:
                     contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
             contour_x, contour_y = np.meshgrid(contour_x, contour_y)
@@ -195,8 +195,8 @@ class BaseTFRepresentation(object):
                 from mpl_toolkits.mplot3d import Axes3D
                 fig = plt.figure()
                 ax = fig.add_subplot(projection="3d")
-                x = np.arange(self.signal.shape[0])
-                y = np.linspace(0, 0.5, self.signal.shape[0])
+                x = self.ts
+                y = np.linspace(0, 0.5, self.tfr.shape[0])
                 X, Y = np.meshgrid(x, y)
                 ax.plot_surface(X, Y, np.abs(self.tfr), cmap=plt.cm.jet)
                 if default_annotation:
@@ -204,8 +204,8 @@ class BaseTFRepresentation(object):
             elif kind == "wireframe":
                 from mpl_toolkits.mplot3d import Axes3D  # NOQA
                 ax = fig.add_subplot(projection="3d")
-                x = np.arange(self.signal.shape[0])
-                y = np.linspace(0, 0.5, self.signal.shape[0])
+                x = self.ts
+                y = np.linspace(0, 0.5, self.tfr.shape[0])
                 X, Y = np.meshgrid(x, y)
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
-- 
2.43.0


From 5a686d14a6cc5cff4954a6a3239f2c4cee70f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:21 +0000
Subject: [PATCH 009/114] fix: plotting leaves the computed representation as
 it was

---
 tftb/processing/affine.py | 12 ++++++++----
 tftb/processing/cohen.py  | 23 ++++++++++++++++++-----
 tftb/processing/linear.py | 12 ++++++++----
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 5a1e29a..0d6aa0f 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -107,15 +107,19 @@ class AffineDistribution(BaseTFRepresentation):
         return beta, mellin1, mellin2
 
     def plot(self, kind="contour", show_tf=True, threshold=0.05, **kwargs):
+        computed = self.tfr
         _thresh = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _thresh] = 0
+        self.tfr = np.where(self.tfr <= _thresh, 0, self.tfr)
         freq_y = kwargs.pop(
             "freq_y", np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
         )
 
-        super(AffineDistribution, self).plot(
-            kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
-        )
+        try:
+            super(AffineDistribution, self).plot(
+                kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
+            )
+        finally:
+            self.tfr = computed
 
     def _get_interpolated_tf(self, tffr):
         tfr = np.zeros((self.n_voices, self.ts.shape[0]))
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 93b8830..1ddccb3 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -62,11 +62,15 @@ class PageRepresentation(BaseTFRepresentation):
         return self.tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
+        computed = self.tfr
         self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
         self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-        super(PageRepresentation, self).plot(kind=kind, **kwargs)
+        try:
+            super(PageRepresentation, self).plot(kind=kind, **kwargs)
+        finally:
+            self.tfr = computed
 
 
 class PseudoPageRepresentation(PageRepresentation):
@@ -112,13 +116,18 @@ class MargenauHillDistribution(BaseTFRepresentation):
         return self.tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
-        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
+        computed = self.tfr
+        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :].copy()
         if sqmod:
             self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
         extent = [0, self.ts.max(), 0, 0.5]
-        super(MargenauHillDistribution, self).plot(kind=kind, extent=extent, **kwargs)
+        try:
+            super(MargenauHillDistribution, self).plot(kind=kind, extent=extent,
+                                                       **kwargs)
+        finally:
+            self.tfr = computed
 
 
 class PseudoMargenauHillDistribution(MargenauHillDistribution):
@@ -184,14 +193,18 @@ class WignerVilleDistribution(BaseTFRepresentation):
             mini = max(np.amin(self.tfr), maxi * threshold)
             levels = np.logspace(np.log10(mini), np.log10(maxi), 65)
             kwargs['levels'] = levels
+        computed = self.tfr
         if sqmod:
             self.tfr = np.abs(self.tfr) ** 2
         else:
             self.tfr = np.abs(self.tfr)
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-        super(WignerVilleDistribution, self).plot(kind=kind, threshold=threshold,
-                                                  **kwargs)
+        try:
+            super(WignerVilleDistribution, self).plot(kind=kind, threshold=threshold,
+                                                      **kwargs)
+        finally:
+            self.tfr = computed
 
 
 class PseudoWignerVilleDistribution(WignerVilleDistribution):
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index bbe7a56..4906f36 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -93,15 +93,19 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         :return: None
         :rtype: None
         """
-        self.tfr = self.tfr[:int(self.n_fbins / 2.0), :]
+        computed = self.tfr, self.freqs
+        self.tfr = self.tfr[:int(self.n_fbins / 2.0), :].copy()
         self.freqs = self.freqs[:int(self.n_fbins / 2.0)]
         if sqmod:
             self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-        super(ShortTimeFourierTransform, self).plot(ax=ax, kind=kind,
-                                                    threshold=threshold,
-                                                    **kwargs)
+        try:
+            super(ShortTimeFourierTransform, self).plot(ax=ax, kind=kind,
+                                                        threshold=threshold,
+                                                        **kwargs)
+        finally:
+            self.tfr, self.freqs = computed
 
 
 def gabor(signal, n_coeff=None, q_oversample=None, window=None):
-- 
2.43.0


From 5fac92d3c2326d435c651f196dcbed5a3535c6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:44 +0000
Subject: [PATCH 010/114] fix: Margenau-Hill distribution leaves out the first
 sample

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 1ddccb3..38d16dd 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -107,7 +107,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
-                                  self.signal.shape[0] - ti)) + 1, ti)
+                                  self.signal.shape[0] - ti)) + 1, ti + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.signal[ti] * \
                 np.conj(self.signal[ti - tau])
-- 
2.43.0


From 1b8c6bca8766a3b34cad78c921113c47a85c4967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:47 +0000
Subject: [PATCH 011/114] fix: Page representation lag products placed one lag
 off

---
 tftb/processing/cohen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 38d16dd..3ded945 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -54,10 +54,10 @@ class PageRepresentation(BaseTFRepresentation):
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min([self.n_fbins - ti,
-                                  self.signal.shape[0] - ti]), ti)
+                                  self.signal.shape[0] - ti]) + 1, ti + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = np.dot(self.signal[ti],
-                                             np.conj(self.signal[ti - tau - 1]))
+                                             np.conj(self.signal[ti - tau]))
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
-- 
2.43.0


From ed603c76e2c8480b29b7feeed9993cc4ff8eb23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:05 +0000
Subject: [PATCH 012/114] fix: pseudo Page representation always raises

---
 tftb/processing/cohen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 3ded945..7ba8b46 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -83,15 +83,15 @@ class PseudoPageRepresentation(PageRepresentation):
             hlength += 1
         from scipy.signal.windows import hamming
         fwindow = hamming(hlength)
-        lh = (fwindow.shape[0] - 1) / 2
+        lh = (fwindow.shape[0] - 1) // 2
         return fwindow / fwindow[lh]
 
     def run(self):
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
-        lh = (self.fwindow.shape[0] - 1) / 2
+        lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
-            tau = np.arange(min([self.n_fbins - 1, lh, icol - 1]) + 1)
-            indices = np.remainder(self.n_fbins + tau, self.n_fbins) + 1
+            tau = np.arange(min([self.n_fbins - 1, lh, icol]) + 1)
+            indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * \
                 self.signal[icol] * np.conj(self.signal[icol - tau])
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
-- 
2.43.0


From df3ac6d53b7e82f512d83ab7339d00f997ed7aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:08 +0000
Subject: [PATCH 013/114] fix: pseudo Margenau-Hill lag products placed one lag
 off and left complex

---
 tftb/processing/cohen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 7ba8b46..547eeb6 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -148,13 +148,13 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
         lh = (self.fwindow.shape[0] - 1) // 2
         xrow = self.signal.shape[0]
         for icol in range(self.ts.shape[0]):
-            start = min([np.round(self.n_fbins / 2.0) - 1, lh, xrow - icol])
-            end = min([np.round(self.n_fbins / 2.0) - 1, lh, icol - 1])
+            start = min([(self.n_fbins + 1) // 2 - 1, lh, xrow - icol - 1])
+            end = min([(self.n_fbins + 1) // 2 - 1, lh, icol])
             tau = np.arange(-start, end + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol] * \
-                np.conj(self.signal[icol - tau - 1])
-        self.tfr = np.fft.fft(self.tfr, axis=0)
+                np.conj(self.signal[icol - tau])
+        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
 
-- 
2.43.0


From 2d5ad534f5108357cbb6c70888e6ed7346883724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:59 +0000
Subject: [PATCH 014/114] fix: reassigned representations with the default
 window (scipy.signal.hamming is gone)

---
 tftb/processing/reassigned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 252f8ce..9bfba5c 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -9,7 +9,7 @@
 """Reassigned TF processing."""
 
 import numpy as np
-import scipy.signal as ssig
+from scipy.signal import windows as ssig
 from tftb.processing.utils import derive_window
 
 
-- 
2.43.0


From 23ee42c17bbb5a174e2f5f484af7a7da4e0af8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:01 +0000
Subject: [PATCH 015/114] fix: reassigned spectrogram wraps the last sample
 into the first columns

---
 tftb/processing/reassigned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 9bfba5c..20b88d4 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -506,7 +506,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
 
     for icol in range(time_samples.shape[0]):
         ti = time_samples[icol]
-        tau = np.arange(-np.min([np.round(n_fbins / 2) - 1, lh, ti]),
+        tau = np.arange(-np.min([np.round(n_fbins / 2) - 1, lh, ti - 1]),
                         np.min([np.round(n_fbins / 2) - 1, lh,
                                 signal.shape[0] - ti]) + 1).astype(int)
         indices = np.remainder(n_fbins + tau, n_fbins)
-- 
2.43.0


From e527658755b6bbd7381912a68e26857b0167d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:04 +0000
Subject: [PATCH 016/114] fix: reassigned spectrogram moves energy one row and
 one column off

---
 tftb/processing/reassigned.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 20b88d4..805e054 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -537,10 +537,11 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
                 icolhat = icol + tf2[jcol, icol]
-                icolhat = np.min([np.max([icolhat, 1]), time_samples.shape[0]])
+                icolhat = np.min([np.max([icolhat.real, 0]),
+                                  time_samples.shape[0] - 1])
                 jcolhat = jcol - tf3[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                rtfr[int(jcolhat), int(icolhat) - 1] += tfr[jcol, icol]
+                jcolhat = jcolhat % n_fbins
+                rtfr[int(jcolhat), int(icolhat)] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From f1d4184105248e1c74e0da62a00d00e21fd0faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 017/114] fix: reassigned spectrogram ignores the spacing of
 the time instants

---
 tftb/processing/reassigned.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 805e054..737925f 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -520,7 +520,8 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     tf3 = np.fft.fft(tf3, axis=0).ravel()
 
     no_warn_mask = tfr != 0
-    tf2[no_warn_mask] = np.round(np.real(tf2[no_warn_mask] / tfr[no_warn_mask]))
+    dt = time_samples[1] - time_samples[0] if time_samples.shape[0] > 1 else 1
+    tf2[no_warn_mask] = np.round(np.real(tf2[no_warn_mask] / tfr[no_warn_mask] / dt))
     tf3[no_warn_mask] = np.round(
         np.imag(n_fbins * tf3[no_warn_mask] / tfr[no_warn_mask] / (2 * np.pi)))
 
-- 
2.43.0


From c1c302c2127188d49aa9403aa5ec0d276db7aba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 018/114] fix: reassigned pseudo Wigner-Ville with a window
 longer than the number of bins

---
 tftb/processing/reassigned.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 737925f..0e6e338 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -49,21 +49,20 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
     dh = derive_window(fwindow)
     for icol in range(tcol):
         ti = timestamps[icol]
-        taumax = min([ti - 1, xrow - ti, np.round(n_fbins / 2.0) - 1, lh])
+        taumax = min([ti - 1, xrow - ti, (n_fbins + 1) // 2 - 1, lh])
         tau = np.arange(-taumax, taumax + 1)
         indices = np.remainder(n_fbins + tau, n_fbins) + 1
         tfr[indices - 1, icol] = fwindow[lh + tau] * signal[ti + tau - 1] * \
             np.conj(signal[ti - tau - 1])
         tf2[indices - 1, icol] = dh[lh + tau] * signal[ti + tau - 1] * \
             np.conj(signal[ti - tau - 1])
-        tau = np.round(n_fbins / 2)
-        if (ti <= (xrow - tau)) and (ti > (tau + 1)) and (tau <= lh):
-            _x = fwindow[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = fwindow[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tfr[tau + 1, icol] = (_x + _y) * 0.5
-            _x = dh[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = dh[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tf2[tau + 1, icol] = (_x + _y) * 0.5
+        tau = n_fbins // 2
+        if (n_fbins % 2 == 0) and (ti <= (xrow - tau)) and (ti >= (tau + 1)) and \
+                (tau <= lh):
+            xx = signal[ti + tau - 1] * np.conj(signal[ti - tau - 1])
+            tfr[tau, icol] = (fwindow[lh + tau] * xx +
+                              fwindow[lh - tau] * np.conj(xx)) * 0.5
+            tf2[tau, icol] = (dh[lh + tau] * xx + dh[lh - tau] * np.conj(xx)) * 0.5
     tfr = np.real(np.fft.fft(tfr, axis=0))
     tf2 = np.imag(np.fft.fft(tf2, axis=0))
     tfr = tfr.ravel()
-- 
2.43.0


From ca5e251d12b6d4dd6bdc6917a02bedc4715e19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 019/114] fix: reassigned pseudo Wigner-Ville moves energy one
 row off

---
 tftb/processing/reassigned.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 0e6e338..1865c77 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -82,9 +82,8 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
                 jcolhat = jcol - int(tf2[jcol, icol])
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = jcolhat % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From 174c3a6f2bc6dc794109a65036f016491288ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:44 +0000
Subject: [PATCH 020/114] fix: reassigned pseudo Margenau-Hill always raises

---
 tftb/processing/reassigned.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 1865c77..acc2dc9 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -117,10 +117,10 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
     fwindow = fwindow / fwindow[lh]
 
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
@@ -129,8 +129,8 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
     for icol in range(tcol):
         ti = timestamps[icol]
-        start = min([np.round(n_fbins / 2.0) - 1, lh, xrow - ti])
-        end = min([np.round(n_fbins / 2.0) - 1, lh, ti - 1])
+        start = min([(n_fbins + 1) // 2 - 1, lh, xrow - ti])
+        end = min([(n_fbins + 1) // 2 - 1, lh, ti - 1])
         tau = np.arange(-start, end + 1)
         indices = np.remainder(n_fbins + tau, n_fbins)
         tfr[indices, icol] = fwindow[lh + tau] * signal[ti - 1] * \
@@ -156,10 +156,9 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                jcolhat = jcol - tf2[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = jcol - int(tf2[jcol, icol])
+                jcolhat = jcolhat % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From 1239161c968da0d314f0218d0f88c9972ee7e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:46 +0000
Subject: [PATCH 021/114] fix: reassigned pseudo Page always raises

---
 tftb/processing/reassigned.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index acc2dc9..4d87cf6 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -191,10 +191,10 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
     fwindow = fwindow / fwindow[lh]
 
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
@@ -202,8 +202,8 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
     dh = derive_window(fwindow)
 
     for icol in range(tcol):
-        tau = np.arange(min([n_fbins - 1, lh, icol - 1]) + 1)
-        indices = np.remainder(n_fbins + tau, n_fbins) + 1
+        tau = np.arange(min([n_fbins - 1, lh, icol]) + 1)
+        indices = np.remainder(n_fbins + tau, n_fbins)
         tfr[indices, icol] = fwindow[lh + tau] * signal[icol] * \
             np.conj(signal[icol - tau])
         tf2[indices, icol] = dh[lh + tau] * signal[icol] * \
@@ -228,10 +228,9 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                jcolhat = jcol - tf2[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = jcol - int(tf2[jcol, icol])
+                jcolhat = jcolhat % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From c412afae5e98769c213a3f1f6ce67debf103bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:23 +0000
Subject: [PATCH 022/114] fix: reassigned pseudo Margenau-Hill wraps the last
 sample into the first column

---
 tftb/processing/reassigned.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 4d87cf6..6ee1b34 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -129,14 +129,14 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
     for icol in range(tcol):
         ti = timestamps[icol]
-        start = min([(n_fbins + 1) // 2 - 1, lh, xrow - ti])
-        end = min([(n_fbins + 1) // 2 - 1, lh, ti - 1])
+        start = min([(n_fbins + 1) // 2 - 1, lh, xrow - ti - 1])
+        end = min([(n_fbins + 1) // 2 - 1, lh, ti])
         tau = np.arange(-start, end + 1)
         indices = np.remainder(n_fbins + tau, n_fbins)
-        tfr[indices, icol] = fwindow[lh + tau] * signal[ti - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tf2[indices, icol] = dh[lh + tau] * signal[ti - 1] * \
-            np.conj(signal[ti - tau - 1])
+        tfr[indices, icol] = fwindow[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[indices, icol] = dh[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
 
     tfr = np.fft.fft(tfr, axis=0)
     tf2 = np.fft.fft(tf2, axis=0)
-- 
2.43.0


From 55ca541bbe38f9592c83be5c1114a831e87b9777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:25 +0000
Subject: [PATCH 023/114] fix: reassigned smoothed pseudo Wigner-Ville always
 raises

---
 tftb/processing/reassigned.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 6ee1b34..360d2a5 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -381,18 +381,18 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     if fwindow is None:
         hlength = np.floor(n_fbins / 4.0)
         hlength += 1 - (hlength % 2)
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
 
     if twindow is None:
         glength = np.floor(n_fbins / 4.0)
         glength += 1 - (glength % 2)
-        twindow = ssig.hamming(glength)
+        twindow = ssig.hamming(int(glength))
     elif twindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
-    lg = (twindow.shape[0] - 1) / 2
+    lg = (twindow.shape[0] - 1) // 2
 
     tcol = timestamps.shape[0]
     deltat = timestamps[1:] - timestamps[:-1]
@@ -408,8 +408,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
 
     for icol in range(tcol):
         ti = timestamps[icol]
-        taumax = min([ti + lg - 1, xrow - ti + lg, np.round(n_fbins / 2.0) - 1,
-                      lh])
+        taumax = min([ti + lg - 1, xrow - ti + lg, (n_fbins + 1) // 2 - 1, lh])
         points = np.arange(-min([lg, xrow - ti]), min([lg, ti - 1]) + 1)
         g2 = twindow[lg + points]
         g2 = g2 / g2.sum()
@@ -417,9 +416,9 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
         xx = signal[ti - 1 - points] * np.conj(signal[ti - 1 - points])
         tfr[0, icol] = (g2 * xx).sum()
         tf2[0, icol] = (tg2 * xx).sum()
-        tf3[0, icol] = dh[lh + 1] * tfr[0, icol]
+        tf3[0, icol] = dh[lh] * tfr[0, icol]
 
-        for tau in range(int(taumax)):
+        for tau in range(1, taumax + 1):
             points = np.arange(-min([lg, xrow - ti - tau]),
                                min([lg, ti - tau - 1]) + 1)
             g2 = twindow[lg + points]
@@ -429,9 +428,9 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
             tfr[tau, icol] = (g2 * xx).sum() * fwindow[lh + tau]
             tf2[tau, icol] = fwindow[lh + tau] * (tg2 * xx).sum()
             tf3[tau, icol] = dh[lh + tau] * (g2 * xx).sum()
-            tfr[n_fbins - tau - 1, icol] = (g2 * np.conj(xx)).sum() * fwindow[lh - tau]
-            tf2[n_fbins - tau - 1, icol] = (tg2 * np.conj(xx)).sum() * fwindow[lh - tau]
-            tf3[n_fbins - tau - 1, icol] = dh[lh - tau] * (g2 * np.conj(xx)).sum()
+            tfr[n_fbins - tau, icol] = (g2 * np.conj(xx)).sum() * fwindow[lh - tau]
+            tf2[n_fbins - tau, icol] = (tg2 * np.conj(xx)).sum() * fwindow[lh - tau]
+            tf3[n_fbins - tau, icol] = dh[lh - tau] * (g2 * np.conj(xx)).sum()
 
     tfr = np.real(np.fft.fft(tfr, axis=0)).ravel()
     tf2 = np.real(np.fft.fft(tf2, axis=0)).ravel()
@@ -451,10 +450,10 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                icolhat = min(max([icol - tf2[jcol, icol], 1]), tcol)
-                jcolhat = jcol - tf3[jcol, icol]
-                jcolhat = (((int(jcolhat) - 1) % n_fbins) + n_fbins) % n_fbins + 1
-                rtfr[jcol, icol] += tfr[jcol, icol]
+                icolhat = min([max([icol - int(tf2[jcol, icol].real), 0]), tcol - 1])
+                jcolhat = jcol - int(tf3[jcol, icol])
+                jcolhat = jcolhat % n_fbins
+                rtfr[jcolhat, icolhat] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf * (1 + 1j)
-- 
2.43.0


From 75a91e24730b2d34f5868c1175acbb01145ac3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:05 +0000
Subject: [PATCH 024/114] fix: reassigned Morlet scalogram always raises

---
 tftb/processing/reassigned.py | 47 ++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 360d2a5..c2896ad 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -268,33 +268,33 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
 
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
     tf2 = np.zeros((n_fbins, tcol), dtype=complex)
-    M = np.ceil(tbp * n_fbins * np.sqrt(2 * np.log(1 / k)))
+    M = int(np.ceil(tbp * n_fbins * np.sqrt(2 * np.log(1 / k))))
     tau = np.arange(M + int(np.round(n_fbins / 2)) + 1)
     hstar = np.exp(-(tau / (n_fbins * tbp)) ** 2 / 2.0) * \
         np.exp(-1j * 2 * np.pi * tau / n_fbins)
     thstar = tau * hstar
 
-    for m in range(1, n_fbins // 2):
+    for m in range(1, (n_fbins + 1) // 2):
         factor = np.sqrt(m / (tbp * n_fbins))
         for icol in range(tcol):
             ti = timestamps[icol]
-            tau_neg = np.arange(1, min([np.ceil(M / m), ti - 1]) + 1).astype(int)
-            tau_pos = np.arange(min([np.ceil(M / m), xrow - ti]) + 1).astype(int)
+            tau_neg = np.arange(1, min([np.ceil(M / m), ti]) + 1).astype(int)
+            tau_pos = np.arange(min([np.ceil(M / m), xrow - ti - 1]) + 1).astype(int)
             # positive frequencies
-            tfr[m, icol] = np.dot(hstar[m * tau_pos - 1],
-                                  signal[ti + tau_pos - 1])
-            tf2[m, icol] = np.dot(thstar[m * tau_pos - 1],
-                                  signal[ti + tau_pos - 1])
+            tfr[m, icol] = np.dot(hstar[m * tau_pos],
+                                  signal[ti + tau_pos])
+            tf2[m, icol] = np.dot(thstar[m * tau_pos],
+                                  signal[ti + tau_pos])
             if tau_neg.shape[0] > 0:
                 tfr[m, icol] += np.dot(np.conj(hstar[tau_neg * m]),
                                        signal[ti - tau_neg])
                 tf2[m, icol] -= np.dot(np.conj(thstar[tau_neg * m]),
                                        signal[ti - tau_neg])
             # negative frequencies
-            tfr[n_fbins - m, icol] = np.dot(np.conj(hstar[tau_pos * m - 1]),
-                                            signal[ti + tau_pos - 1])
-            tf2[n_fbins - m, icol] = np.dot(np.conj(thstar[tau_pos * m - 1]),
-                                            signal[ti + tau_pos - 1])
+            tfr[n_fbins - m, icol] = np.dot(np.conj(hstar[tau_pos * m]),
+                                            signal[ti + tau_pos])
+            tf2[n_fbins - m, icol] = np.dot(np.conj(thstar[tau_pos * m]),
+                                            signal[ti + tau_pos])
             if tau_neg.shape[0] > 0:
                 tfr[n_fbins - m, icol] += np.dot(hstar[tau_neg * m],
                                                  signal[ti - tau_neg])
@@ -305,15 +305,12 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
         tfr[n_fbins - m, :] *= factor
         tf2[n_fbins - m, :] *= factor / m
 
-    m = int(np.round(n_fbins / 2.0))
+    m = n_fbins // 2
     factor = np.sqrt(m / (tbp * n_fbins))
     for icol in range(tcol):
         ti = timestamps[icol]
-        tau_neg = np.arange(1, min([np.ceil(M / m), ti - 1]) + 1).astype(int)
-        tau_pos = np.arange(min([np.ceil(M / m), xrow - ti]) + 1).astype(int)
-        tau_pos -= 1
-        tau_neg -= 1
-
+        tau_neg = np.arange(1, min([np.ceil(M / m), ti]) + 1).astype(int)
+        tau_pos = np.arange(min([np.ceil(M / m), xrow - ti - 1]) + 1).astype(int)
         tfr[m, icol] = np.dot(hstar[m * tau_pos], signal[ti + tau_pos])
         tf2[m, icol] = np.dot(thstar[m * tau_pos], signal[ti + tau_pos])
         if tau_neg.shape[0] > 0:
@@ -338,14 +335,12 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if tfr[jcol, icol] > threshold:
-                icolhat = icol + np.round(np.real(tf2[jcol, icol] / dt))
-                icolhat = min([max([icolhat, 1]), tcol])
-                m = np.remainder(jcol + np.round(n_fbins / 2.0) - 2,
-                                 n_fbins)
-                m -= np.round(n_fbins / 2.0) + 1
-                jcolhat = jcol + np.round(np.imag((m ** 2) * tf2[jcol, icol] / factor))
-                jcolhat = ((((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins) + 1
-                rtfr[jcolhat - 1, icolhat - 1] += tfr[jcol, icol]
+                icolhat = icol + int(np.round(np.real(tf2[jcol, icol] / dt)))
+                icolhat = min([max([icolhat, 0]), tcol - 1])
+                m = min([jcol, n_fbins - jcol])
+                jcolhat = jcol + int(np.round(np.imag((m ** 2) * tf2[jcol, icol] / factor)))
+                jcolhat = jcolhat % n_fbins
+                rtfr[jcolhat, icolhat] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf * (1 + 1j)
-- 
2.43.0


From 6ec457ffb74ecb7c99abdf738a2932f1a6a8eb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:42 +0000
Subject: [PATCH 025/114] fix: fmconst has unit modulus and a phase reference
 for any time centre

---
 tftb/generators/frequency_modulated.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 6857a66..ae08f12 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -32,7 +32,6 @@ def fmconst(n_points, fnorm=0.25, t0=None):
     else:
         tmt0 = np.arange(n_points) - t0
         y = np.exp(1j * 2.0 * np.pi * fnorm * tmt0)
-        y = y / np.real(y[int(t0)])
         iflaw = fnorm * np.ones((n_points,))
         return y, iflaw
 
-- 
2.43.0


From 0e448706b05f0bed302bdb4e7693d230b144388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:46 +0000
Subject: [PATCH 026/114] fix: fmpar phase is the integral of its frequency law

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index ae08f12..918018e 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -165,7 +165,7 @@ def fmpar(n_points, coefficients):
     """
     a0, a1, a2 = coefficients
     t = np.arange(n_points)
-    phi = 2 * np.pi * (a0 * t + (a1 / 2 * t) ** 2 + (a2 / 3 * t) ** 3)
+    phi = 2 * np.pi * (a0 * t + a1 / 2 * t ** 2 + a2 / 3 * t ** 3)
     iflaw = a0 + a1 * t + a2 * (t ** 2)
     a, b = iflaw < 0, iflaw > 0.5
     aliasing = np.logical_or(a, b)
-- 
2.43.0


From 6a29ca7d19f48d5ef57ec165772fb4d8c1c7140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:49 +0000
Subject: [PATCH 027/114] fix: fmpower frequency law is infinite at its first
 sample

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 918018e..bfed0db 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -202,7 +202,7 @@ def fmpower(n_points, k, coefficients):
         p2 = coefficients[2:]
         c = (p2[1] - p1[1]) / (1.0 / (p2[0] ** k) - 1.0 / (p1[0] ** k))
         f0 = p1[1] - c / (p1[0] ** k)
-    t = np.arange(n_points)
+    t = np.arange(1, n_points + 1)
     phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
     iflaw = (f0 + c * np.abs(t) ** (-k))
     a, b = iflaw < 0, iflaw > 0.5
-- 
2.43.0


From c3de1c0e4a65d86234b642ff7a0c40a4784ba440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:51 +0000
Subject: [PATCH 028/114] fix: fmodany phase reference is at t0, which may be
 the last sample

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index bfed0db..7b22e01 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -143,7 +143,7 @@ def fmodany(iflaw, t0=1):
         raise TypeError("T0 should be between 1 and len(iflaw)")
 
     y = np.exp(1j * 2.0 * pi * np.cumsum(iflaw))
-    y = y * np.conjugate(y[t0])
+    y = y * np.conjugate(y[t0 - 1])
     return y
 
 
-- 
2.43.0


From 929ad1e1360e384e83cb2a4391648f84f0eacacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 029/114] fix: fmodany rejects out of range column laws and
 negative time centres

---
 tftb/generators/frequency_modulated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 7b22e01..e96ebae 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -136,10 +136,10 @@ def fmodany(iflaw, t0=1):
         if iflaw.shape[1] != 1:
             raise TypeError("iflaw should be a column vector.")
 
-    elif np.amax(np.abs(iflaw)) > 0.5:
+    if np.amax(np.abs(iflaw)) > 0.5:
         raise TypeError("Elements of iflaw should be within -0.5 and 0.5")
 
-    if (t0 > iflaw.shape[0]) or (t0 == 0):
+    if (t0 > iflaw.shape[0]) or (t0 < 1):
         raise TypeError("T0 should be between 1 and len(iflaw)")
 
     y = np.exp(1j * 2.0 * pi * np.cumsum(iflaw))
-- 
2.43.0


From 3a59e4479e48421040b4880f43c24b94f05fbcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:57 +0000
Subject: [PATCH 030/114] fix: fmsin phase vanishes at its time reference

---
 tftb/generators/frequency_modulated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index e96ebae..1628a3b 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -252,8 +252,8 @@ def fmsin(n_points, fnormin=0.05, fnormax=0.45, period=None, t0=None,
     delta = 0.5 * (fnormax - fnormin)
     phi = -pm1 * np.arccos((fnorm0 - fnormid) / delta)
     t = np.arange(n_points) - t0
-    phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi)) -\
-        np.sin(phi)
+    phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi) -
+                                                     np.sin(phi))
     y = np.exp(1j * phase)
     iflaw = fnormid + delta * np.cos(2 * pi * t / period + phi)
     return y, iflaw
-- 
2.43.0


From 00539df03ca87fe92bc84e78fdfbf033c170ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:26 +0000
Subject: [PATCH 031/114] fix: anafsk returns exactly the requested number of
 points

---
 tftb/generators/analytic_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 74231fb..c7929e2 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -86,7 +86,7 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     m = np.ceil(n_points / n_comp)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
-    iflaw = np.repeat(freqs, n_comp).ravel()
+    iflaw = np.repeat(freqs, n_comp).ravel()[:n_points]
     y = np.exp(1j * 2 * pi * np.cumsum(iflaw))
     return y, iflaw
 
-- 
2.43.0


From 81722d5efe56d1d3a5006023eefa8c08ea39d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:29 +0000
Subject: [PATCH 032/114] fix: anaqpsk raises unless the symbol length divides
 the number of points

---
 tftb/generators/analytic_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index c7929e2..39a9bbe 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -140,7 +140,7 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     m = int(np.ceil(n_points / n_comp))
     jumps = np.floor(4 * np.random.rand(m))
     jumps[jumps == 4] = 3
-    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()
+    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()[:n_points]
     tm = np.arange(n_points) - 1
     pm = 2 * np.pi * f0 * tm + pm0
     y = np.exp(1j * pm)
-- 
2.43.0


From 902c604257fdacea7b0ae2c26c45e0dcc6927f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 033/114] fix: digital modulations raise for very short signals

---
 tftb/generators/analytic_signals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 39a9bbe..606e3b3 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -23,7 +23,7 @@ def anaask(n_points, n_comp=None, f0=0.25):
     .. plot:: docstring_plots/generators/analytic_signals/anaask.py
     """
     if n_comp is None:
-        n_comp = round(n_points / 2.0)
+        n_comp = max(1, round(n_points / 2.0))
     if (f0 < 0) or (f0 > 0.5):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
@@ -53,7 +53,7 @@ def anabpsk(n_points, n_comp=None, f0=0.25):
     .. plot:: docstring_plots/generators/analytic_signals/anabpsk.py
     """
     if n_comp is None:
-        n_comp = round(n_points / 5.0)
+        n_comp = max(1, round(n_points / 5.0))
     if (f0 < 0) or (f0 > 0.5):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
@@ -82,7 +82,7 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     .. plot:: docstring_plots/generators/analytic_signals/anafsk.py
     """
     if n_comp is None:
-        n_comp = int(round(n_points / 5.0))
+        n_comp = max(1, int(round(n_points / 5.0)))
     m = np.ceil(n_points / n_comp)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
@@ -134,7 +134,7 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     .. plot:: docstring_plots/generators/analytic_signals/anaqpsk.py
     """
     if n_comp is None:
-        n_comp = round(n_points / 5.0)
+        n_comp = max(1, round(n_points / 5.0))
     if (f0 < 0) or (f0 > 0.5):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
-- 
2.43.0


From 6badafdebf0d8c6a27dc55e7fd66766020a113b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 034/114] fix: digital modulations raise for the symbol lengths
 given as floats in their examples

---
 tftb/generators/analytic_signals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 606e3b3..a918f60 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -28,7 +28,7 @@ def anaask(n_points, n_comp=None, f0=0.25):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
     jumps = np.random.rand(m)
-    am = np.repeat(jumps, n_comp)[:n_points]
+    am = np.repeat(jumps, int(n_comp))[:n_points]
     fm, _ = fmconst(n_points, f0, 1)
     y = am * fm
     return y, am
@@ -58,7 +58,7 @@ def anabpsk(n_points, n_comp=None, f0=0.25):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
     jumps = 2.0 * np.round(np.random.rand(m)) - 1
-    am = np.repeat(jumps, n_comp)[:n_points]
+    am = np.repeat(jumps, int(n_comp))[:n_points]
     y = am * fmconst(n_points, f0, 1)[0]
     return y, am
 
@@ -86,7 +86,7 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     m = np.ceil(n_points / n_comp)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
-    iflaw = np.repeat(freqs, n_comp).ravel()[:n_points]
+    iflaw = np.repeat(freqs, int(n_comp)).ravel()[:n_points]
     y = np.exp(1j * 2 * pi * np.cumsum(iflaw))
     return y, iflaw
 
@@ -140,7 +140,7 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     m = int(np.ceil(n_points / n_comp))
     jumps = np.floor(4 * np.random.rand(m))
     jumps[jumps == 4] = 3
-    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()[:n_points]
+    pm0 = (np.pi * np.repeat(jumps, int(n_comp)) / 2).ravel()[:n_points]
     tm = np.arange(n_points) - 1
     pm = 2 * np.pi * f0 * tm + pm0
     y = np.exp(1j * pm)
-- 
2.43.0


From bfde42fb90f9d2c60081cdb8b2d4d003643c86e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 035/114] fix: anasing raises for some numbers of points

---
 tftb/generators/analytic_signals.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index a918f60..cf64ac4 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -168,9 +168,7 @@ def anasing(n_points, t0=None, h=0.0):
     if t0 is None:
         t0 = n_points / 2.0
     if h <= 0:
-        start, end = 1.0 / n_points, 0.5 - 1.0 / n_points
-        N = int(end / start)
-        f = np.linspace(start, end, N)
+        f = np.arange(1, int(n_points / 2)) / float(n_points)
         y = np.zeros((int(n_points / 2.0),), dtype=complex)
         y[1:int(n_points / 2)] = (f ** (-1 - h)) * np.exp(-1j * 2 * pi * f * (t0 - 1))
         x = np.real(np.fft.ifft(y, n_points))
-- 
2.43.0


From 45ed23518227333f32b1595b2ad096ee9f48a0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 036/114] fix: very short noise signals raise or have two
 dimensions

---
 tftb/generators/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index fbc91e1..c696852 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -25,7 +25,7 @@ def noisecu(n_points):
     .. plot:: docstring_plots/generators/noise/noisecu.py
     """
     if n_points <= 2:
-        noise = (np.random.rand(n_points, 1) - 0.5 + 1j * (np.random.rand(n_points, 1) - 0.5)) * \
+        noise = (np.random.rand(n_points) - 0.5 + 1j * (np.random.rand(n_points) - 0.5)) * \
             np.sqrt(6)
     else:
         noise = np.random.rand(2 ** int(nextpow2(n_points)),) - 0.5
@@ -65,7 +65,7 @@ def noisecg(n_points, a1=None, a2=None):
     """
     assert n_points > 0
     if n_points <= 2:
-        noise = (np.random.randn(n_points, 1.) + 1j * np.random.randn(n_points, 1.)) / np.sqrt(2.)
+        noise = (np.random.randn(n_points) + 1j * np.random.randn(n_points)) / np.sqrt(2.)
     else:
         noise = np.random.normal(size=int(2. ** nextpow2(float(n_points)),))
         noise = hilbert(noise) / noise.std() / np.sqrt(2.)
-- 
2.43.0


From 7b7ec1cd2edfd4ad50fb72c0666ba29abc8c0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:41 +0000
Subject: [PATCH 037/114] fix: dopnoise returns one sample too few

---
 tftb/generators/noise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index c696852..4732250 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -117,10 +117,10 @@ def dopnoise(n_points, s_freq, f_target, distance, v_target,
     y = np.zeros((2 * n_points,))
     for t in range(2, 2 * n_points):
         y[t] = x[t] - rr * (x[t - 2] + y[t - 2]) + r2 * np.cos(2.0 * np.pi * iflaw[t]) * y[t - 1]
-    y = hilbert(y[(n_points + 1): (2 * n_points + 1)]) /\
-        np.sqrt(dist[(n_points + 1): (2 * n_points + 1)])
+    y = hilbert(y[n_points: (2 * n_points)]) /\
+        np.sqrt(dist[n_points: (2 * n_points)])
     y = y / np.sqrt(np.sum(np.abs(y) ** 2))
-    iflaw = iflaw[(n_points + 1):(2 * n_points + 1)]
+    iflaw = iflaw[n_points:(2 * n_points)]
     return y, iflaw
 
 
-- 
2.43.0


From da9a3c9b63f36313b2d504a2c770b3eefda9ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:43 +0000
Subject: [PATCH 038/114] fix: doppler amplitude is an array for a zero target
 frequency too

---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 16e9532..2c2ecd2 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -113,7 +113,7 @@ def doppler(n_points, s_freq, f0, distance, v_target, t0=None, v_wave=340.0):
     dist = np.sqrt(distance ** 2 + (v_target * tmt0) ** 2)
     fm = np.exp(1j * 2 * pi * f0 * (tmt0 - dist / v_wave))
     if np.abs(f0) < np.spacing(1):
-        am = 0
+        am = np.zeros((n_points,))
     else:
         am = 1. / np.sqrt(dist)
     iflaw = (1 - v_target ** 2 * tmt0 / dist / v_wave) * f0 / s_freq
-- 
2.43.0


From 75a007f12fd203d684950c55faaf1e928125fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 039/114] fix: klauder returns one sample too few for odd
 lengths

---
 tftb/generators/misc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 2c2ecd2..dd54cf6 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -141,12 +141,10 @@ def klauder(n_points, attenuation=10.0, f0=0.2):
     assert n_points > 0
     assert ((f0 < 0.5) and (f0 > 0))
 
-    f = np.linspace(0., 0.5, int(n_points / 2 + 1))
+    f = np.abs(np.fft.fftfreq(n_points))
     mod = np.exp(-2. * np.pi * attenuation * f) * f ** (2. * np.pi * attenuation * f0 - 0.5)
     wave = mod
     wave[0] = 0
-    a, b = wave[:int(n_points / 2)], wave[1:int(n_points / 2 + 1)][::-1]
-    wave = np.hstack((a, b))
     wavet = np.fft.ifft(wave)
     wavet = np.fft.fftshift(wavet)
     x = np.real(wavet) / np.linalg.norm(wavet)
-- 
2.43.0


From 3a7662e24638d719628032e6e6f7134eb00fa010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:49 +0000
Subject: [PATCH 040/114] fix: gdpower raises for a constant group delay

---
 tftb/generators/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index dd54cf6..d39a3f3 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -213,7 +213,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
     elif degree == 1.:
         from tftb.generators.analytic_signals import anapulse
         t0 = n_points
-        x = anapulse(n_points, t0)
+        x = anapulse(n_points, t0 - 1)
     elif degree > 1.:
         d = n_points * 2. ** (degree - 1.) * rate
         tfx[:lnu] = np.exp(-1.0j * 2.0 * pi * (t0 * nu + d * nu ** degree / degree)) * am
@@ -227,7 +227,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
     if degree != 1.0:
         gpd = t0 + np.abs(np.sign(rate) - 1.0) / 2.0 * (n_points + 1.0) + d * nu ** (degree - 1.0)
     else:
-        gpd = t0 * np.ones((n_points / 2.0,))
+        gpd = t0 * np.ones((lnu,))
 
     x = x - x.mean()
     x = x / np.linalg.norm(x)
-- 
2.43.0


From da1ec91eff1e5d7a23535ea5ecf48caca0d389a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:51 +0000
Subject: [PATCH 041/114] fix: gdpower rate scales the group delay for degrees
 below one

---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index d39a3f3..0187747 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -201,7 +201,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
     tfx = np.zeros((n_points,), dtype=complex)
 
     if (degree < 1.) and (degree != 0):
-        d = float(n_points) ** (degree * rate)
+        d = float(n_points) ** degree * rate
         t0 = n_points / 10.0
         tfx[:lnu] = np.exp(-1.0j * 2. * pi * (t0 * nu + d * nu ** degree / degree)) * am
         x = np.fft.ifft(tfx)
-- 
2.43.0


From bfb2111c3e68daf889a65df4d3d4ce5ecf644139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:11 +0000
Subject: [PATCH 042/114] fix: scale raises for every signal

---
 tftb/generators/utils.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/tftb/generators/utils.py b/tftb/generators/utils.py
index 7ecea4c..ed8d3f1 100644
--- a/tftb/generators/utils.py
+++ b/tftb/generators/utils.py
@@ -45,7 +45,7 @@ def scale(X, a, fmin, fmax, N):
     """
     Z = hilbert(np.real(X))
     T = X.shape[0]
-    M = (T + np.remainder(T, 2)) / 2
+    M = (T + T % 2) // 2
 
     # B = fmax - fmin
     # R = B / ((fmin + fmax) / 2)
@@ -56,9 +56,9 @@ def scale(X, a, fmin, fmax, N):
     # Geometric sampling of the analyzed spectrum
     k = np.arange(N)
     q = (fmax / float(fmin)) ** (1.0 / (N - 1.0))
-    geo_f = fmin * np.exp((k - 1) * np.log(q))
-    t = np.arange(X.shape[0]) - M - 1
-    tfmatx = np.exp(-2 * 1j * np.dot(t.reshape(128, 1), geo_f.reshape(1, 128)) * np.pi)
+    geo_f = fmin * np.exp(k * np.log(q))
+    t = np.arange(X.shape[0]) - M
+    tfmatx = np.exp(-2 * 1j * np.outer(t, geo_f) * np.pi)
     ZS = np.dot(Z, tfmatx)
     ZS = np.hstack((ZS, np.zeros((N,))))
 
@@ -68,26 +68,20 @@ def scale(X, a, fmin, fmax, N):
     beta = (p / float(N) - 1.0) / (2 * np.log(q))
 
     # Inverse mellin and fourier transform.
-    Mmax = np.amax(np.ceil(X.shape[0] / 2.0 * a))
-    if isinstance(a, np.ndarray):
-        S = np.zeros((2 * Mmax, a.shape[0]), dtype=complex)
-    else:
-        S = np.zeros((2 * Mmax,), dtype=complex)
-        ptr = 0
-        DMS = np.exp(-2 * np.pi * 1j * beta * np.log(a)) * MS
+    scales = np.atleast_1d(a)
+    Mmax = int(np.amax(np.ceil(X.shape[0] / 2.0 * scales)))
+    S = np.zeros((2 * Mmax, scales.shape[0]), dtype=complex)
+    for ptr, acurrent in enumerate(scales):
+        DMS = np.exp(-2 * np.pi * 1j * beta * np.log(acurrent)) * MS
         DS = np.fft.fft(np.fft.fftshift(DMS), axis=0)
-        Mcurrent = np.ceil(a * X.shape[0] / 2)
-        t = np.arange(-Mcurrent, Mcurrent) - 1
-        itfmatx = np.exp(2 * 1j * np.pi * np.dot(t.reshape((256, 1)),
-                                                 geo_f.reshape((1, 128))))
-        dilate_sig = np.zeros((2 * Mcurrent,), dtype=complex)
-        for kk in range(2 * int(Mcurrent)):
-            dilate_sig[kk] = trapezoid(itfmatx[kk, :] * DS[:N], geo_f)
-        S[(Mmax - Mcurrent):(Mmax + Mcurrent)] = dilate_sig
-        ptr += 1
+        Mcurrent = int(np.ceil(acurrent * X.shape[0] / 2))
+        t = np.arange(-Mcurrent, Mcurrent)
+        itfmatx = np.exp(2 * 1j * np.pi * np.outer(t, geo_f))
+        S[(Mmax - Mcurrent):(Mmax + Mcurrent), ptr] = \
+            trapezoid(itfmatx * DS[:N], geo_f, axis=1)
 
     S = S * np.linalg.norm(X) / np.linalg.norm(S)
-    return S
+    return S if isinstance(a, np.ndarray) else S[:, 0]
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 97a28d3aad70787f4fcb16816dace188cf2f8210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 043/114] fix: loctime of a column vector

---
 tftb/processing/time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/time_domain.py b/tftb/processing/time_domain.py
index 24b0dd1..b6afb1d 100644
--- a/tftb/processing/time_domain.py
+++ b/tftb/processing/time_domain.py
@@ -18,7 +18,7 @@ def loctime(sig):
     >>> print("%.2f" % T)
     50.00
     """
-    if sig.ndim > 2:
+    if sig.ndim > 1:
         if 1 not in sig.shape:
             raise TypeError
         else:
-- 
2.43.0


From 04c2e90a77cf45d0dcc0113f60e6af29d9a6737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 044/114] fix: locfreq of a signal with an odd number of
 samples

---
 tftb/processing/freq_domain.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tftb/processing/freq_domain.py b/tftb/processing/freq_domain.py
index 33f7c72..c2bf0d9 100644
--- a/tftb/processing/freq_domain.py
+++ b/tftb/processing/freq_domain.py
@@ -25,12 +25,10 @@ def locfreq(signal):
             raise TypeError
         else:
             signal = signal.ravel()
-    no2r = np.round(signal.shape[0] / 2.0)
-    no2f = np.floor(signal.shape[0] / 2.0)
     sig = np.fft.fft(signal)
     sig = np.abs(sig) ** 2
     sig = sig / sig.mean()
-    freqs = np.hstack((np.arange(no2f), np.arange(-no2r, 0))) / signal.shape[0]
+    freqs = np.fft.fftfreq(signal.shape[0])
     fm = np.mean(freqs * sig)
     bw = 2 * np.sqrt(np.pi * np.mean(((freqs - fm) ** 2) * sig))
     return fm, bw
-- 
2.43.0


From 65259ff361ea967ecda33fb7184a618971ff4bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 045/114] fix: nextpow2 raises for the arrays it documents

---
 tftb/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tftb/utils.py b/tftb/utils.py
index 0045717..b442f3c 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -56,6 +56,8 @@ def nextpow2(n):
     >>> print(nextpow2(x))
     [ 0.  1.  2.  2.  3.  3.  3.  3.]
     """
+    if isinstance(n, np.ndarray):
+        return np.ceil(np.log2(n))
     return math.ceil(math.log2(n))
 
 
-- 
2.43.0


From 9702c879464e3fe805f3c4e09932c7aa1d4bec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:20 +0000
Subject: [PATCH 046/114] fix: izak raises for one dimensional input

---
 tftb/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/utils.py b/tftb/utils.py
index b442f3c..0042330 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -36,6 +36,7 @@ def izak(x):
         n, m = x.shape
     else:
         n, m = x.shape[0], 1
+        x = x.reshape(n, m)
     sig = np.zeros((n * m, ), dtype=complex)
     for im in range(m):
         sig[im + np.arange(n) * m] = np.sqrt(n) * np.fft.ifft(x[:, im], axis=0)
-- 
2.43.0


From 51b2d3c37066c428682632646a7eb9ba698153b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:22 +0000
Subject: [PATCH 047/114] fix: renyi_information modifies the axes it is given

---
 tftb/processing/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index c224b1d..2276f38 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -87,10 +87,10 @@ def renyi_information(tfr, timestamps=None, freq=None, alpha=3.0):
     if timestamps is None:
         timestamps = np.arange(n) + 1
     elif np.allclose(timestamps, np.arange(n)):
-        timestamps += 1
+        timestamps = timestamps + 1
     if freq is None:
         freq = np.arange(m)
-    freq.sort()
+    freq = np.sort(freq)
     tfr = tfr / integrate_2d(tfr, timestamps, freq)
     if alpha == 1:
         R = -integrate_2d(tfr * np.log2(tfr + np.spacing(1)), timestamps, freq)
-- 
2.43.0


From 7e1d2ebd21f5fb0849ee27c765d0ba476ae9a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 048/114] fix: hough_transform labels each of its rows with a
 radius

---
 tftb/processing/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 2276f38..ff51719 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -62,7 +62,7 @@ def hough_transform(image, m=None, n=None):
                         ht[int(np.round(rho / deltar)),
                            int(np.round(theta / deltat))] += image[x + xc - 1,
                                                                    y + yc - 1]
-    rho = np.linspace(0, rhomax, n)
+    rho = np.linspace(0, rhomax, m)
     theta = np.linspace(0, 2 * np.pi - deltat, n)
     return ht, rho, theta
 
-- 
2.43.0


From 611f8b07c5b7631dc8d925a399e0f429faca029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 049/114] fix: ideal_tfr puts undefined frequencies in
 unrelated cells

---
 tftb/processing/postprocessing.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index ff51719..2af40d7 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -124,9 +124,7 @@ def ideal_tfr(iflaws, timestamps=None, n_fbins=None):
     for icol in range(tcol):
         ti = timestamps[icol]
         for fi in range(ifrow):
-            if np.isnan(iflaws[fi, ti]):
-                tfr[ti, fi] = np.nan
-            else:
+            if not np.isnan(iflaws[fi, ti]):
                 tfr[int(np.round(iflaws[fi, ti] * 2 * (n_fbins - 1))), icol] = 1
     freqs = np.arange(n_fbins, dtype=float) / n_fbins * 0.5
     return tfr, timestamps, freqs
-- 
2.43.0


From 5d45a158751370792471f1eef169c43f7e261532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:52 +0000
Subject: [PATCH 050/114] fix: ridges ignores its energy threshold

---
 tftb/processing/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 2af40d7..0325659 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -197,7 +197,7 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
             condt1 = np.real(re_mat[:, icol]) - freqs == 0
             condt2 = np.imag(re_mat[:, icol]) - icol == 0
             condt3 = tfr[:, icol] > threshold
-            indices = np.logical_and(condt1, condt2, condt3)
+            indices = condt1 & condt2 & condt3
             if np.any(indices):
                 time_points = np.ones((indices.sum(),)) * ti
                 freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
@@ -207,7 +207,7 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
             condt1 = np.real(re_mat[:, icol]) - freqs == 0
             condt2 = np.imag(re_mat[:, icol]) - icol == 0
             condt3 = tfr[:, icol] > threshold
-            indices = np.logical_and(condt1, condt2, condt3)
+            indices = condt1 & condt2 & condt3
             if np.any(indices):
                 time_points = np.ones((indices.sum(),)) * ti
                 freq_points = np.arange(indices.shape[0])[indices] / n_fbins
-- 
2.43.0


From db806921d474aaa14d925a70f461aae4879d20fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:54 +0000
Subject: [PATCH 051/114] fix: ridges returns the points of every column

---
 tftb/processing/postprocessing.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 0325659..42f560e 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -182,6 +182,7 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
     n_fbins = tfrrow
     freqs = np.arange(n_fbins)
     threshold = np.sum(np.sum(tfr)) * 0.5 / tfr.size
+    time_points, freq_points = np.array([]), np.array([])
 
     if method in ('rpwv', 'rpmh'):
         for icol in range(tfrcol):
@@ -189,8 +190,9 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
             indices = np.logical_and(tfr[:, icol] > threshold,
                                      re_mat[:, icol] - freqs == 0)
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points,
+                                    np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)]
     elif method == "rspwv":
         for icol in range(tfrcol):
             ti = timestamps[icol]
@@ -199,8 +201,9 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
             condt3 = tfr[:, icol] > threshold
             indices = condt1 & condt2 & condt3
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points,
+                                    np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)]
     elif method in ("rsp", "type1"):
         for icol in range(tfrcol):
             ti = timestamps[icol]
@@ -209,8 +212,9 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
             condt3 = tfr[:, icol] > threshold
             indices = condt1 & condt2 & condt3
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / n_fbins
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points,
+                                    np.arange(indices.shape[0])[indices] / n_fbins]
     else:
         raise ValueError("Unknown time frequency representation.")
     return time_points, freq_points
-- 
2.43.0


From 34fd6653eac3495442c55a1680ece0cc169f55d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 052/114] fix: affine distributions raise for narrow bands
 unless given a number of voices

---
 tftb/processing/affine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 0d6aa0f..5fd3649 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -276,11 +276,11 @@ class UnterbergerDistribution(AffineDistribution):
         if teq < 2 * self.m:
             m0 = int(np.round((2 * self.m ** 2) / teq - self.m)) + 1
             m1 = self.m + m0
-            self.T = 2 * (self.m + m0) - 1
         else:
             m0 = 0
             m1 = self.m
         self.m1 = int(np.round(m1))
+        self.T = 2 * self.m1 - 1
         if n_voices is None:
             self._get_nvoices()
         else:
@@ -357,10 +357,10 @@ class DFlandrinDistribution(AffineDistribution):
         teq = self.m / (self.fmax * self.umax)
         if teq < 2 * self.m:
             m0 = int(round((2 * self.m ** 2) / teq - self.m)) + 1
-            self.T = 2 * (self.m + m0) - 1
         else:
             m0 = 0
         self.m1 = int(np.round(self.m + m0))
+        self.T = 2 * self.m1 - 1
         if n_voices is None:
             self._get_nvoices()
         else:
@@ -416,11 +416,11 @@ class BertrandDistribution(AffineDistribution):
         if teq < self.signal.shape[0]:
             m0 = int(np.round((2 * self.m ** 2) / teq - self.m)) + 1
             m1 = self.m + m0
-            self.T = 2 * m1 - 1
         else:
             m0 = 0
             m1 = self.m
         self.m1 = m1
+        self.T = 2 * self.m1 - 1
         if n_voices is None:
             self._get_nvoices()
         else:
-- 
2.43.0


From 39782813aa4715d2a4dffee2f61a3dc8fcc49105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 053/114] fix: passive Unterberger distribution always raises

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 5fd3649..2f29479 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -301,7 +301,7 @@ class UnterbergerDistribution(AffineDistribution):
             fx2 = np.fft.fft(np.fft.fftshift(mx2))[: self.n_voices]
             waf[n - 1, :] = fx1 * np.conj(fx2)
             if self.form != "A":
-                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n] / 2) ** 2)
+                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n - 1] / 2) ** 2)
         waf = np.vstack((waf[self.m1: (2 * self.m1), :], waf[: self.m1, :]))
         waf *= np.repeat(
             self.geo_f.reshape((1, self.geo_f.shape[0])), 2 * self.m1, axis=0
-- 
2.43.0


From 7beb258b831a3f62a0440ba1fc30432d2aab45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:06 +0000
Subject: [PATCH 054/114] fix: wavelet transform returned by the scalogram is
 aligned with it

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 2f29479..37b3278 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -196,8 +196,8 @@ class Scalogram(AffineDistribution):
                     detail.shape[0] - int(np.round(nha)) + 1,
                     dtype=int,
                 )
-                wt[ptr, :] = detail[self.ts]
                 detail = detail[ix]
+                wt[ptr, :] = detail[self.ts]
                 self.tfr[ptr, :] = detail[self.ts] * np.conj(detail[self.ts])
         elif self.waveparams == 0:
             for ptr in range(self.n_voices):
-- 
2.43.0


From 049571ad3a93910397094d86646102b1751618d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:09 +0000
Subject: [PATCH 055/114] fix: Mexican hat scalogram is one sample late

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 37b3278..2a234f4 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -205,7 +205,7 @@ class Scalogram(AffineDistribution):
                 nha = (ha.shape[0] - 1) / 2
                 detail = np.convolve(self.z, ha) / np.sqrt(a[ptr])
                 ix = np.arange(
-                    int(np.round(nha)) + 1, detail.shape[0] - int(np.round(nha)) + 1
+                    int(np.round(nha)), detail.shape[0] - int(np.round(nha))
                 )
                 detail = detail[ix]
                 wt[ptr, :] = detail[self.ts]
-- 
2.43.0


From 3cb587b2301434655ae070632cbd4f2b0fa709b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:12 +0000
Subject: [PATCH 056/114] fix: scalogram ignores the time instants it is given

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 2a234f4..792a071 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -165,7 +165,7 @@ class Scalogram(AffineDistribution):
     def __init__(
         self, signal, fmin=None, fmax=None, n_voices=None, waveparams=None, **kwargs
     ):
-        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax)
+        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax, **kwargs)
         if waveparams is None:
             waveparams = np.sqrt(signal.shape[0])
         if n_voices is None:
-- 
2.43.0


From 888415a5660df05642465e43422dd7c609812d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:14 +0000
Subject: [PATCH 057/114] fix: affine distributions of column vectors and of
 pairs of signals always raise

---
 tftb/processing/affine.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 792a071..cf1b402 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -25,11 +25,12 @@ class AffineDistribution(BaseTFRepresentation):
     isaffine = True
 
     def __init__(self, signal, fmin=None, fmax=None, **kwargs):
-        super(AffineDistribution, self).__init__(signal, **kwargs)
-        if signal.ndim == 2:
+        if signal.ndim == 2 and signal.shape[1] == 2:
+            super(AffineDistribution, self).__init__(signal[:, 0], **kwargs)
             self.kind = "cross"
-            self.x1, self.x2 = self.signal[:, 0].copy(), self.signal[:, 1].copy()
+            self.x1, self.x2 = signal[:, 0].copy(), signal[:, 1].copy()
         else:
+            super(AffineDistribution, self).__init__(signal, **kwargs)
             self.kind = "auto"
             self.x1 = self.x2 = self.signal.copy()
         self.s1 = np.real(self.x1)
@@ -146,7 +147,7 @@ class AffineDistribution(BaseTFRepresentation):
         if self.kind == "auto":
             multiplier = np.linalg.norm(sp1_ana) ** 2
         else:
-            multiplier = np.dot(sp1_ana, sp2_ana)
+            multiplier = np.real(np.vdot(sp2_ana, sp1_ana))
         tfr = tfr * multiplier / integrate_2d(tfr, t, f) / self.n_voices
         self.tfr = tfr
         return tfr, t, f
@@ -338,7 +339,7 @@ class UnterbergerDistribution(AffineDistribution):
         if self.kind == "auto":
             multiplier = np.linalg.norm(sp1_ana) ** 2
         else:
-            multiplier = np.dot(sp1_ana, sp2_ana)
+            multiplier = np.real(np.vdot(sp2_ana, sp1_ana))
 
         tfr = tfr * multiplier / integrate_2d(tfr, t, f) / self.n_voices
         self.tfr = tfr
-- 
2.43.0


From 0322d40a4278d10dc4507923ba127aa1f110d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 058/114] fix: wide band ambiguity function picks its default
 band from the spectrum

---
 tftb/processing/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index ea9f52d..6c53550 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -35,7 +35,7 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
 
     # determine default values for fmin, fmax
     if (fmin is None) or (fmax is None):
-        STF = np.fft.fftshift(s_ana)
+        STF = np.fft.fft(np.fft.fftshift(s_ana))
         sp = np.abs(STF[:m]) ** 2
         maxsp = np.amax(sp)
         f = np.linspace(0, 0.5, m + 1)
-- 
2.43.0


From f391e06a74c3ced59e37200b79e59960b044cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:17 +0000
Subject: [PATCH 059/114] fix: narrow band ambiguity function with fewer
 frequency bins than samples

---
 tftb/processing/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index 6c53550..34e1876 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -126,7 +126,7 @@ def narrow_band(signal, lag=None, n_fbins=None):
     for icol in range(taucol):
         taui = int(lag[icol])
         t = np.arange(abs(taui), n - abs(taui)).astype(int)
-        naf[t, icol] = signal[t + taui] * np.conj(signal[t - taui])
+        np.add.at(naf[:, icol], t % n_fbins, signal[t + taui] * np.conj(signal[t - taui]))
     naf = np.fft.fft(naf, axis=0)
 
     _ix1 = np.arange((n_fbins + (n_fbins % 2)) // 2, n_fbins)
-- 
2.43.0


From c37764496ee813755ca3802c86a86dd5c55b69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:31 +0000
Subject: [PATCH 060/114] fix: gabor coefficients reconstruct the signal for
 every number of coefficients

---
 tftb/processing/linear.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 4906f36..d34b1d6 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -130,7 +130,6 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
         window = np.exp(np.log(0.005) * np.linspace(-1, 1, nearest_odd(n_coeff)) ** 2)
         window = window / np.linalg.norm(window)
     m = int(q_oversample * signal.shape[0] / float(n_coeff))
-    mb = int(signal.shape[0] / float(n_coeff))
     nb = int(signal.shape[0] / float(m))
 
     # Zak transform?
@@ -143,13 +142,13 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
     end = np.round((signal.shape[0] + nh - 1) / 2) - alpha
     hn1[np.arange(start - 1, end).astype(int)] = window
 
-    msig = hn1.reshape(int(nb), int(m), order='F')
-    dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(m)
-    mzh = np.zeros((m, mb))
+    msig = hn1.reshape(int(m), int(nb), order='F')
+    dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(nb)
+    mzh = np.zeros((nb, m))
     x = np.arange(1, m + 1, dtype=float)
     for l in range(q_oversample):  # NOQA: E741
         mod = modulo(x - l * m / q_oversample, m).astype(int)
-        mzh += np.abs(dzth[mod - 1, :]) ** 2
+        mzh += np.abs(dzth[:, mod - 1]) ** 2
 
     mzh[mzh < np.spacing(1)] = 1
 
-- 
2.43.0


From 5cc58b33b8f15a36e66e88adc7c7f4613dc64512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:21 +0000
Subject: [PATCH 061/114] fix: atoms raises for the coordinates of a single
 atom

---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 0187747..19019c6 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -56,7 +56,7 @@ def atoms(n_points, coordinates):
     .. plot:: docstring_plots/generators/misc/atoms.py
     """
     if coordinates.ndim == 1:
-        coordinates = coordinates.reshape((coordinates.shape[0], 1))
+        coordinates = coordinates.reshape((1, coordinates.shape[0]))
     signal = np.zeros((n_points,), dtype=complex)
     n_atoms = coordinates.shape[0]
     for k in range(n_atoms):
-- 
2.43.0


From f5957f21c9f7a12e05f6db0bfd8d95d1377d6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:25 +0000
Subject: [PATCH 062/114] fix: derive_window removes the slope of asymmetric
 windows with the wrong sign

---
 tftb/processing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/utils.py b/tftb/processing/utils.py
index d69690e..1ba973a 100644
--- a/tftb/processing/utils.py
+++ b/tftb/processing/utils.py
@@ -67,7 +67,7 @@ def derive_window(window):
     """
     lh = (window.shape[0] - 1) / 2.0
     step_height = (window[0] + window[-1]) / 2.0
-    ramp = (window[0] - window[-1]) / (window.shape[0] - 1)
+    ramp = (window[-1] - window[0]) / (window.shape[0] - 1)
     base = np.arange(-lh, lh + 1)
     base = window - step_height - ramp * base
     base = np.hstack((np.array([0]), base, np.array([0])))
-- 
2.43.0


From a25206d8192f294069adfeb39cccb49db7adb3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:10 +0000
Subject: [PATCH 063/114] fix: unilateral exponential modulation is not a
 number far before its start

---
 tftb/generators/amplitude_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/amplitude_modulated.py b/tftb/generators/amplitude_modulated.py
index 51bddc5..1a502ff 100644
--- a/tftb/generators/amplitude_modulated.py
+++ b/tftb/generators/amplitude_modulated.py
@@ -76,7 +76,7 @@ def amexpos(n_points, t0=None, spread=None, kind="bilateral"):
         if kind == "bilateral":
             y = np.exp(-sqrt(2 * np.pi) * np.abs(tmt0) / spread)
         else:
-            y = np.exp(-sqrt(np.pi) * tmt0 / spread) * (tmt0 >= 0.0)
+            y = np.exp(-sqrt(np.pi) * np.maximum(tmt0, 0) / spread) * (tmt0 >= 0.0)
         return y
 
 
-- 
2.43.0


From ef07a80e9bface08cb4544f1c950ad2fce0f986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:12 +0000
Subject: [PATCH 064/114] fix: fmpower raises for an integer degree

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 1628a3b..308989d 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -202,7 +202,7 @@ def fmpower(n_points, k, coefficients):
         p2 = coefficients[2:]
         c = (p2[1] - p1[1]) / (1.0 / (p2[0] ** k) - 1.0 / (p1[0] ** k))
         f0 = p1[1] - c / (p1[0] ** k)
-    t = np.arange(1, n_points + 1)
+    t = np.arange(1, n_points + 1, dtype=float)
     phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
     iflaw = (f0 + c * np.abs(t) ** (-k))
     a, b = iflaw < 0, iflaw > 0.5
-- 
2.43.0


From 1136a17081c22e46b7f93649356f687a7ee72627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 065/114] fix: weight the zero lag of the smoothed pseudo
 Wigner-Ville distribution by its window

---
 tftb/processing/cohen.py      | 3 ++-
 tftb/processing/reassigned.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 547eeb6..ffa7db9 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -291,7 +291,8 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
         g2 = twindow[lg_points]
         g2 = g2 / np.sum(g2)
         signal_idx = (ti - points - 1).astype(int)
-        tfr[0, icol] = np.sum(g2 * signal[signal_idx] * np.conj(signal[signal_idx]))
+        tfr[0, icol] = fwindow[lh] * np.sum(g2 * signal[signal_idx] *
+                                            np.conj(signal[signal_idx]))
         for tau in range(1, int(taumax) + 1):
             points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
                                min([lg, ti - 1 - tau]) + 1)
diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index c2896ad..d4fe3ee 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -409,9 +409,9 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
         g2 = g2 / g2.sum()
         tg2 = g2 * points
         xx = signal[ti - 1 - points] * np.conj(signal[ti - 1 - points])
-        tfr[0, icol] = (g2 * xx).sum()
-        tf2[0, icol] = (tg2 * xx).sum()
-        tf3[0, icol] = dh[lh] * tfr[0, icol]
+        tfr[0, icol] = fwindow[lh] * (g2 * xx).sum()
+        tf2[0, icol] = fwindow[lh] * (tg2 * xx).sum()
+        tf3[0, icol] = dh[lh] * (g2 * xx).sum()
 
         for tau in range(1, taumax + 1):
             points = np.arange(-min([lg, xrow - ti - tau]),
-- 
2.43.0


From bf9872ee7dbfa886f36c88e9fe46f708f36eea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:07 +0000
Subject: [PATCH 066/114] fix: affine distributions raise when rounding
 shortens the dilation grid by one point

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index cf1b402..4b7d836 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -101,7 +101,7 @@ class AffineDistribution(BaseTFRepresentation):
         mellin2 = np.fft.fftshift(np.fft.ifft(S2))
         umin = -self.umax
         du = np.abs(self.umax - umin) / (2 * self.m1)
-        u = np.linspace(umin, self.umax - du, int((self.umax - umin) / du))
+        u = np.linspace(umin, self.umax - du, int(2 * self.m1))
         u[int(self.m1)] = 0
         self.u = u
         beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))
-- 
2.43.0


From 342f85587b4c69901719f1b1c54d146efe2c4346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:58 +0000
Subject: [PATCH 067/114] fix: the wide band ambiguity function peaks at the
 origin

---
 tftb/processing/ambiguity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index 34e1876..1ff7822 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -82,7 +82,7 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
     theta = np.log(scale)
     mellinSSb = mellinS * np.conj(mellinSb)
 
-    waf = np.fft.ifft(mellinSSb, N, axis=0)
+    waf = np.fft.ifft(mellinSSb[:N, :] + mellinSSb[N:, :], axis=0)
     no2 = int((N + N % 2) / 2.0)
     waf = np.r_[waf[no2:(N + 1), :], waf[:no2, :]]
 
@@ -92,7 +92,7 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
     indmin = int(1 + np.round(fmin * (nx - 2)))
     indmax = int(1 + np.round(fmax * (nx - 2)))
     sp_ana = SP[(indmin - 1):indmax]
-    waf *= (np.linalg.norm(sp_ana) ** 2) / waf[no2 - 1, m - 1] / N
+    waf *= (np.linalg.norm(sp_ana) ** 2) / waf[N - no2, m] / N
 
     return waf, tau, theta
 
-- 
2.43.0


From cca386eb0d11fcf8e565f5e1180e82ecf24999e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:01 +0000
Subject: [PATCH 068/114] fix: default wavelet length of the scalogram of a row
 vector

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 4b7d836..7990da8 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -168,7 +168,7 @@ class Scalogram(AffineDistribution):
     ):
         super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax, **kwargs)
         if waveparams is None:
-            waveparams = np.sqrt(signal.shape[0])
+            waveparams = np.sqrt(self.signal.shape[0])
         if n_voices is None:
             n_voices = self.signal.shape[0]
         self.n_voices = n_voices
-- 
2.43.0


From 1d5685ad860b9a9105f6a935e7ce0597833f5cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 069/114] fix: plot draws on the axes it is given

---
 tftb/processing/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index bb60983..abfe22e 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -185,9 +185,12 @@ class BaseTFRepresentation(object):
                 self._annotate_signal(axTime)
                 self._annotate_spectrum(axSpec)
         else:
-            fig = plt.figure()
+            if ax is None or kind in ("surf", "wireframe"):
+                fig = plt.figure()
+                ax = None
             if kind == "cmap":
-                ax = fig.add_subplot(111)
+                if ax is None:
+                    ax = fig.add_subplot(111)
                 ax.imshow(self.tfr,
                           aspect='auto', cmap=cmap, origin='lower', extent=extent,
                           **kwargs)
@@ -211,7 +214,8 @@ class BaseTFRepresentation(object):
                                   rstride=3, cstride=3)
             else:
                 t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
-                ax = fig.add_subplot(111)
+                if ax is None:
+                    ax = fig.add_subplot(111)
                 ax.contour(t, f, self.tfr, **kwargs)
             if default_annotation:
                 grid = kwargs.get('grid', True)
-- 
2.43.0


From bc21f29c18d4d20bfb46a9c83c58baad0e30958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 070/114] fix: the plot of a Page representation labels its
 rows with their frequencies

---
 tftb/processing/cohen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index ffa7db9..b877f92 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -67,8 +67,9 @@ class PageRepresentation(BaseTFRepresentation):
         self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
+        extent = [0, self.ts.max(), 0, 0.5]
         try:
-            super(PageRepresentation, self).plot(kind=kind, **kwargs)
+            super(PageRepresentation, self).plot(kind=kind, extent=extent, **kwargs)
         finally:
             self.tfr = computed
 
-- 
2.43.0


From c1724ba28de127a42c23c119a36b94448b27d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:15 +0000
Subject: [PATCH 071/114] fix: plots of the Margenau-Hill and Page
 distributions start at their first instant

---
 tftb/processing/cohen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index b877f92..550dd85 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -67,7 +67,7 @@ class PageRepresentation(BaseTFRepresentation):
         self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-        extent = [0, self.ts.max(), 0, 0.5]
+        extent = [self.ts.min(), self.ts.max(), 0, 0.5]
         try:
             super(PageRepresentation, self).plot(kind=kind, extent=extent, **kwargs)
         finally:
@@ -123,7 +123,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
             self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-        extent = [0, self.ts.max(), 0, 0.5]
+        extent = [self.ts.min(), self.ts.max(), 0, 0.5]
         try:
             super(MargenauHillDistribution, self).plot(kind=kind, extent=extent,
                                                        **kwargs)
-- 
2.43.0


From b9ad3a083d3b0052bad751c5f1c65326807c1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:17 +0000
Subject: [PATCH 072/114] fix: the plot of a Page representation ignores sqmod

---
 tftb/processing/cohen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 550dd85..5bc2dbb 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -63,8 +63,9 @@ class PageRepresentation(BaseTFRepresentation):
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
         computed = self.tfr
-        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
-        self.tfr = np.abs(self.tfr) ** 2
+        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :].copy()
+        if sqmod:
+            self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
         extent = [self.ts.min(), self.ts.max(), 0, 0.5]
-- 
2.43.0


From 67d8abc5dd98c87e68b4c9c1aeceb13eca331864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:19 +0000
Subject: [PATCH 073/114] fix: plot raises for its grid option

---
 tftb/processing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index abfe22e..27f121f 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -166,6 +166,7 @@ class BaseTFRepresentation(object):
         freq_x = kwargs.pop('freq_x', None)
         freq_y = kwargs.pop('freq_y', None)
         cmap = kwargs.pop("cmap", plt.cm.gray)
+        grid = kwargs.pop('grid', True)
 
         if show_tf:
             fig, axTF = plt.subplots(figsize=(10, 8))
@@ -218,7 +219,6 @@ class BaseTFRepresentation(object):
                     ax = fig.add_subplot(111)
                 ax.contour(t, f, self.tfr, **kwargs)
             if default_annotation:
-                grid = kwargs.get('grid', True)
                 ax.grid(grid)
                 ax.set_xlabel("Time")
                 ax.set_ylabel("Normalized Frequency")
-- 
2.43.0


From 16f0aaffa9a9e5d0857cd193062ac3a29af47d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:22 +0000
Subject: [PATCH 074/114] fix: contour plots ignore their levels and the
 logarithmic scale

---
 tftb/processing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 27f121f..3a1d1e8 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -217,7 +217,7 @@ class BaseTFRepresentation(object):
                 t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
                 if ax is None:
                     ax = fig.add_subplot(111)
-                ax.contour(t, f, self.tfr, **kwargs)
+                ax.contour(t, f, self.tfr, levels=levels, **kwargs)
             if default_annotation:
                 ax.grid(grid)
                 ax.set_xlabel("Time")
-- 
2.43.0


From 6ba22b91452123b711d2f763a3c1a4c9649fb9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:55 +0000
Subject: [PATCH 075/114] fix: plots of affine distributions label their rows
 with the computed frequencies

---
 tftb/processing/affine.py |  4 ++++
 tftb/processing/base.py   | 17 +++++++----------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 7990da8..3fe6d94 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -107,6 +107,9 @@ class AffineDistribution(BaseTFRepresentation):
         beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))
         return beta, mellin1, mellin2
 
+    def _get_row_freqs(self):
+        return self.freqs
+
     def plot(self, kind="contour", show_tf=True, threshold=0.05, **kwargs):
         computed = self.tfr
         _thresh = np.amax(self.tfr) * threshold
@@ -254,6 +257,7 @@ class Scalogram(AffineDistribution):
         self.tfr = np.real(self.tfr)
         self.tfr *= (np.linalg.norm(SPana) ** 2) / integrate_2d(self.tfr, self.ts, f)
         self.tfr /= self.n_voices
+        self.freqs = f
         return self.tfr, self.ts, f, wt
 
 
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 3a1d1e8..49bc0f7 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -51,6 +51,9 @@ class BaseTFRepresentation(object):
                                  2 * nf2)) ** 2
         return spec[:nf2]
 
+    def _get_row_freqs(self):
+        return np.linspace(0, 0.5, self.tfr.shape[0])
+
     def _make_window(self):
         """Make a Hamming window function.
 
@@ -73,13 +76,7 @@ class BaseTFRepresentation(object):
             if contour_x is None:
                 contour_x = self.ts
             if contour_y is None:
-                if show_tf:
-                    if self.isaffine:
-                        contour_y = np.linspace(self.fmin, self.fmax, self.n_voices)
-                    else:
-                        contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
-                else:
-                    contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
+                contour_y = self._get_row_freqs()
             contour_x, contour_y = np.meshgrid(contour_x, contour_y)
             if levels is not None:
                 ax.contour(contour_x, contour_y, self.tfr, levels)
@@ -200,7 +197,7 @@ class BaseTFRepresentation(object):
                 fig = plt.figure()
                 ax = fig.add_subplot(projection="3d")
                 x = self.ts
-                y = np.linspace(0, 0.5, self.tfr.shape[0])
+                y = self._get_row_freqs()
                 X, Y = np.meshgrid(x, y)
                 ax.plot_surface(X, Y, np.abs(self.tfr), cmap=plt.cm.jet)
                 if default_annotation:
@@ -209,12 +206,12 @@ class BaseTFRepresentation(object):
                 from mpl_toolkits.mplot3d import Axes3D  # NOQA
                 ax = fig.add_subplot(projection="3d")
                 x = self.ts
-                y = np.linspace(0, 0.5, self.tfr.shape[0])
+                y = self._get_row_freqs()
                 X, Y = np.meshgrid(x, y)
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
             else:
-                t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
+                t, f = np.meshgrid(self.ts, self._get_row_freqs())
                 if ax is None:
                     ax = fig.add_subplot(111)
                 ax.contour(t, f, self.tfr, levels=levels, **kwargs)
-- 
2.43.0


From e92337934b38913311792220ff18ab1abbd2777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:57 +0000
Subject: [PATCH 076/114] fix: the spectrum beside an affine distribution
 raises for few voices and is upside down

---
 tftb/processing/affine.py | 6 +-----
 tftb/processing/base.py   | 8 +++++---
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 3fe6d94..3ef7694 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -114,13 +114,9 @@ class AffineDistribution(BaseTFRepresentation):
         computed = self.tfr
         _thresh = np.amax(self.tfr) * threshold
         self.tfr = np.where(self.tfr <= _thresh, 0, self.tfr)
-        freq_y = kwargs.pop(
-            "freq_y", np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
-        )
-
         try:
             super(AffineDistribution, self).plot(
-                kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
+                kind=kind, show_tf=show_tf, **kwargs
             )
         finally:
             self.tfr = computed
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 49bc0f7..d87cf44 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -109,17 +109,19 @@ class BaseTFRepresentation(object):
     def _plot_spectrum(self, ax, freq_x, freq_y):
         k = int(np.floor(self.signal.shape[0] / 2.0))
         if freq_x is None:
-            freq_x = self._get_spectrum()[::-1][:k]
+            freq_x = self._get_spectrum()
+            if not self.isaffine:
+                freq_x = freq_x[::-1][:k]
         if freq_y is None:
             if self.isaffine:
-                freq_y = self.freqs
+                freq_y = 0.5 * np.arange(freq_x.shape[0]) / freq_x.shape[0]
             else:
                 freq_y = np.arange(k)
         ax.plot(freq_x, freq_y)
         if not self.isaffine:
             ax.set_ylim(0, freq_y.shape[0] - 1)
         else:
-            ax.set_ylim(freq_y[0], freq_y[-1])
+            ax.set_ylim(self.fmin, self.fmax)
 
     def _annotate_spectrum(self, ax):
         ax.set_ylabel('Spectrum')
-- 
2.43.0


From 4f9716f3638d595c13cac56b4dcdf7d47954342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:44 +0000
Subject: [PATCH 077/114] fix: plotting the modulus of a short time Fourier
 transform raises

---
 tftb/processing/linear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index d34b1d6..86246d8 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -98,6 +98,8 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         self.freqs = self.freqs[:int(self.n_fbins / 2.0)]
         if sqmod:
             self.tfr = np.abs(self.tfr) ** 2
+        else:
+            self.tfr = np.abs(self.tfr)
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
         try:
-- 
2.43.0


From e7d07e58aa04e2d365751bdb5927579430ed823a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:46 +0000
Subject: [PATCH 078/114] fix: compute the reassigned pseudo Page at the
 instants given

---
 tftb/processing/reassigned.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index d4fe3ee..3486b6e 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -202,13 +202,14 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
     dh = derive_window(fwindow)
 
     for icol in range(tcol):
-        tau = np.arange(min([n_fbins - 1, lh, icol]) + 1)
+        ti = timestamps[icol]
+        tau = np.arange(min([n_fbins - 1, lh, ti]) + 1)
         indices = np.remainder(n_fbins + tau, n_fbins)
-        tfr[indices, icol] = fwindow[lh + tau] * signal[icol] * \
-            np.conj(signal[icol - tau])
-        tf2[indices, icol] = dh[lh + tau] * signal[icol] * \
-            np.conj(signal[icol - tau])
-        tf2[0, icol] += signal[icol] * np.conj(signal[icol])
+        tfr[indices, icol] = fwindow[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[indices, icol] = dh[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[0, icol] += signal[ti] * np.conj(signal[ti])
 
     tfr = np.fft.fft(tfr, axis=0)
     tf2 = np.fft.fft(tf2, axis=0)
-- 
2.43.0


From fb91d21fd8882bac1b07ee5cb82d0ce151c843cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:39 +0000
Subject: [PATCH 079/114] fix: do not overflow on distributions of integer
 signals

---
 tftb/processing/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index d87cf44..bcbd11a 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -30,6 +30,8 @@ class BaseTFRepresentation(object):
         """
         if signal.ndim > 1:
             signal = signal.ravel()
+        if signal.dtype.kind in "iu":
+            signal = signal.astype(float)
         self.signal = signal
         if timestamps is None:
             timestamps = np.arange(signal.shape[0])
-- 
2.43.0


From e868b1f92e689c5e70f3010864875ff97dcdf920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:41 +0000
Subject: [PATCH 080/114] fix: do not overflow on reassigned distributions of
 integer signals

---
 tftb/processing/reassigned.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 3486b6e..9aad970 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -27,6 +27,7 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
 :return:
 :rtype:
     """
+    signal = signal * 1.0
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
@@ -106,6 +107,7 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
 :return:
 :rtype:
     """
+    signal = signal * 1.0
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
@@ -181,6 +183,7 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
 :return:
 :rtype:
     """
+    signal = signal * 1.0
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
     if n_fbins is None:
@@ -254,6 +257,7 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
 :return:
 :rtype:
     """
+    signal = signal * 1.0
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
@@ -368,6 +372,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     :return:
     :rtype:
     """
+    signal = signal * 1.0
     xrow = signal.shape[0]
 
     if timestamps is None:
@@ -475,6 +480,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
         vectors
     :rtype: tuple(array-like)
     """
+    signal = signal * 1.0
     if time_samples is None:
         time_samples = np.arange(signal.shape[0])
     elif np.unique(np.diff(time_samples)).shape[0] > 1:
-- 
2.43.0


From d05b3f84e54c96af5daa9375a77ae40ddb000f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:43 +0000
Subject: [PATCH 081/114] fix: do not overflow on the ambiguity function of
 integer signals

---
 tftb/processing/ambiguity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index 1ff7822..9b06156 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -110,6 +110,7 @@ def narrow_band(signal, lag=None, n_fbins=None):
     :rtype: array-like
     """
 
+    signal = signal * 1.0
     n = signal.shape[0]
     if lag is None:
         if n % 2 == 0:
-- 
2.43.0


From b1d29f4669a33fb204d35b79efca023e3e7d1d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:45 +0000
Subject: [PATCH 082/114] fix: do not overflow on the time localization of
 integer signals

---
 tftb/processing/time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/time_domain.py b/tftb/processing/time_domain.py
index b6afb1d..3ab7255 100644
--- a/tftb/processing/time_domain.py
+++ b/tftb/processing/time_domain.py
@@ -23,7 +23,7 @@ def loctime(sig):
             raise TypeError
         else:
             sig = sig.ravel()
-    sig2 = np.abs(sig**2)
+    sig2 = np.abs(sig * 1.0) ** 2
     sig2 = sig2 / sig2.mean()
     t = np.arange(len(sig))
     tm = np.mean(t * sig2)
-- 
2.43.0


From 7dc01e851761d6dee555bd71aa55211230d461d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:47 +0000
Subject: [PATCH 083/114] fix: do not overflow on the instantaneous frequency
 of integer signals

---
 tftb/processing/freq_domain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/freq_domain.py b/tftb/processing/freq_domain.py
index c2bf0d9..420e83f 100644
--- a/tftb/processing/freq_domain.py
+++ b/tftb/processing/freq_domain.py
@@ -75,6 +75,7 @@ def inst_freq(x, t=None, L=1):
     else:
         t = np.arange(2, len(x))
 
+    x = x * 1.0
     fnorm = 0.5 * (np.angle(-x[t] * np.conj(x[t - 2])) + np.pi) / (2 * np.pi)
     return fnorm, t
 
-- 
2.43.0


From 088b3a7f7201c230d15147763098ae76a0862402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:50 +0000
Subject: [PATCH 084/114] fix: do not overflow on merging integer signals

---
 tftb/generators/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/utils.py b/tftb/generators/utils.py
index ed8d3f1..03460e2 100644
--- a/tftb/generators/utils.py
+++ b/tftb/generators/utils.py
@@ -20,8 +20,8 @@ def sigmerge(x1, x2, ratio=0.0):
     assert x1.ndim == 1
     assert x2.ndim == 1
     assert type(ratio) in (float, int)
-    ex1 = np.mean(np.abs(x1) ** 2)
-    ex2 = np.mean(np.abs(x2) ** 2)
+    ex1 = np.mean(np.abs(x1 * 1.0) ** 2)
+    ex2 = np.mean(np.abs(x2 * 1.0) ** 2)
     h = np.sqrt(ex1 / (ex2 * 10 ** (ratio / 10.0)))
     sig = x1 + h * x2
     return sig
-- 
2.43.0


From 622d40ca94534d6720d334ea5612fb0da7619871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:39 +0000
Subject: [PATCH 085/114] fix: normalise affine distributions by the band of
 the whole spectrum

---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 3ef7694..49af60e 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -76,8 +76,8 @@ class AffineDistribution(BaseTFRepresentation):
     def _normalize(self):
         SP1 = np.fft.fft(hilbert(self.s1), axis=0)
         SP2 = np.fft.fft(hilbert(self.s2), axis=0)
-        indmin = 1 + int(np.round(self.fmin * (self.ts.shape[0] - 2)))
-        indmax = 1 + int(np.round(self.fmax * (self.ts.shape[0] - 2)))
+        indmin = 1 + int(np.round(self.fmin * (self.signal.shape[0] - 2)))
+        indmax = 1 + int(np.round(self.fmax * (self.signal.shape[0] - 2)))
         sp1_ana = SP1[(indmin - 1): indmax]
         sp2_ana = SP2[(indmin - 1): indmax]
         return sp1_ana, sp2_ana
-- 
2.43.0


From aed039db5d7b128aa6b3397397559b6b4dc0d727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:26 +0000
Subject: [PATCH 086/114] fix: integrate over unevenly spaced columns

---
 tftb/processing/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/utils.py b/tftb/processing/utils.py
index 1ba973a..bbfa84d 100644
--- a/tftb/processing/utils.py
+++ b/tftb/processing/utils.py
@@ -41,7 +41,8 @@ def integrate_2d(mat, x=None, y=None):
     if y is None:
         y = np.arange(m)
 
-    mat = (mat.sum(1) - mat[:, 0] / 2.0 - mat[:, n - 1] / 2.0) * (x[1] - x[0])
+    dx = (x[1:] - x[:(n - 1)]) / 2.0
+    mat = np.dot(mat, np.r_[dx, 0] + np.r_[0, dx])
     dmat = mat[:(m - 1)] + mat[1:]
     dy = (y[1:] - y[:(m - 1)]) / 2.0
     return np.sum(dmat * dy)
-- 
2.43.0


From 7333622d47abb26d41e299d358a4d1071d117ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:25 +0000
Subject: [PATCH 087/114] fix: let the sinusoidal law start at its limits

---
 tftb/generators/frequency_modulated.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 308989d..42586c4 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -250,7 +250,11 @@ def fmsin(n_points, fnormin=0.05, fnormax=0.45, period=None, t0=None,
 
     fnormid = 0.5 * (fnormax + fnormin)
     delta = 0.5 * (fnormax - fnormin)
-    phi = -pm1 * np.arccos((fnorm0 - fnormid) / delta)
+    cos_phi = (fnorm0 - fnormid) / delta
+    if fnormin <= fnorm0 <= fnormax:
+        # rounding errors should not push the limits out of the domain of arccos
+        cos_phi = min(max(cos_phi, -1.0), 1.0)
+    phi = -pm1 * np.arccos(cos_phi)
     t = np.arange(n_points) - t0
     phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi) -
                                                      np.sin(phi))
-- 
2.43.0


From 30414a1f77dfc7fc3f3aff08987f18aaeaba0997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:07 +0000
Subject: [PATCH 088/114] fix: put the affine distributions at their own
 instants

The products of time and frequency at which they are computed are multiples
of 1 / (2 umax) with the origin at sample m; Bertrand and D-Flandrin were
one sample early, and all three dilated time by about 2 / n.  Interpolating
from all the points also lets short signals and wide bands through.
---
 tftb/processing/affine.py | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 49af60e..ee2c058 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -123,21 +123,11 @@ class AffineDistribution(BaseTFRepresentation):
 
     def _get_interpolated_tf(self, tffr):
         tfr = np.zeros((self.n_voices, self.ts.shape[0]))
-        ts2 = (self.signal.shape[0] - 1) / 2
-        gamma = np.linspace(
-            -self.geo_f[self.n_voices - 1] * ts2,
-            self.geo_f[self.n_voices - 1] * ts2,
-            2 * self.m1,
-        )
+        # products of time and frequency, the origin being at sample m
+        gamma = np.arange(1 - self.m1, self.m1 + 1) / (2 * self.umax)
         for i in range(self.n_voices):
-            condition = np.logical_and(
-                gamma >= -self.geo_f[i] * ts2, gamma <= self.geo_f[i] * ts2
-            )
-            ind = np.nonzero(np.ravel(condition))[0]
-            x = gamma[ind]
-            y = tffr[i, ind].ravel()
-            xi = (self.ts - ts2) * self.geo_f[i]
-            tck = splrep(x, y)
+            xi = (self.ts - self.m) * self.geo_f[i]
+            tck = splrep(gamma, tffr[i, :])
             tfr[i, :] = splev(xi, tck).ravel()
         t = self.ts
         f = self.geo_f.ravel()
@@ -316,21 +306,11 @@ class UnterbergerDistribution(AffineDistribution):
         )
         # conversion from tff to tf using 1d interpolation
         tfr = np.zeros((self.n_voices, self.ts.shape[0]))
-        ts2 = (self.signal.shape[0] - 1) / 2
-        gamma = np.linspace(
-            -self.geo_f[self.n_voices - 1] * ts2,
-            self.geo_f[self.n_voices - 1] * ts2,
-            2 * self.m1,
-        )
+        # products of time and frequency, the origin being at sample m
+        gamma = np.arange(1 - self.m1, self.m1 + 1) / (2 * self.umax)
         for i in range(self.n_voices):
-            condition = np.logical_and(
-                gamma >= -self.geo_f[i] * ts2, gamma <= self.geo_f[i] * ts2
-            )
-            ind = np.nonzero(np.ravel(condition))[0]
-            x = gamma[ind]
-            y = tffr[i, ind].ravel()
-            xi = (self.ts - ts2 - 1) * self.geo_f[i]
-            tck = splrep(x, y)
+            xi = (self.ts - self.m) * self.geo_f[i]
+            tck = splrep(gamma, tffr[i, :])
             tfr[i, :] = splev(xi, tck).ravel()
         t = self.ts
         f = self.freqs = self.geo_f[: self.n_voices].ravel()
-- 
2.43.0


From f0e0e00902d5b4f0387aa9afa9d5f369ac154d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:10 +0000
Subject: [PATCH 089/114] fix: let the Bertrand distribution analyse any band

---
 tftb/processing/affine.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index ee2c058..793f6de 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -12,7 +12,7 @@ Bilinear Time-Frequency Processing in the Affine Class.
 
 import numpy as np
 from scipy.signal import hilbert
-from scipy.optimize import brenth, newton
+from scipy.optimize import newton
 from scipy.interpolate import splrep, splev
 from tftb.generators import mexhat, scale
 from tftb.processing.utils import integrate_2d
@@ -391,8 +391,7 @@ class BertrandDistribution(AffineDistribution):
         super(BertrandDistribution, self).__init__(
             signal, fmin=fmin, fmax=fmax, n_voices=n_voices, **kwargs
         )
-        umaxbert = lambda x: np.exp(x) - self.fmax / self.fmin
-        self.umax = brenth(umaxbert, 0, 4)
+        self.umax = np.log(self.fmax / self.fmin)
         teq = self.m / (self.fmax * self.umax)
         if teq < self.signal.shape[0]:
             m0 = int(np.round((2 * self.m ** 2) / teq - self.m)) + 1
-- 
2.43.0


From 1baa1adb24dda2362f97175a42280969c122b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:23 +0000
Subject: [PATCH 090/114] fix: give the reassigned smoothed pseudo Wigner-Ville
 its lag at half the bins

---
 tftb/processing/reassigned.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 9aad970..39e3e2e 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -432,6 +432,17 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
             tfr[n_fbins - tau, icol] = (g2 * np.conj(xx)).sum() * fwindow[lh - tau]
             tf2[n_fbins - tau, icol] = (tg2 * np.conj(xx)).sum() * fwindow[lh - tau]
             tf3[n_fbins - tau, icol] = dh[lh - tau] * (g2 * np.conj(xx)).sum()
+        tau = n_fbins // 2
+        if (n_fbins % 2 == 0) and (ti <= (xrow - tau)) and (ti >= (tau + 1)) and \
+                (tau <= lh):
+            points = np.arange(-min([lg, xrow - ti - tau]),
+                               min([lg, ti - tau - 1]) + 1)
+            g2 = twindow[lg + points]
+            g2 = g2 / g2.sum()
+            xx = signal[ti + tau - 1 - points] * np.conj(signal[ti - tau - 1 - points])
+            for matrix, g, h in ((tfr, g2, fwindow), (tf2, g2 * points, fwindow), (tf3, g2, dh)):
+                matrix[tau, icol] = 0.5 * (h[lh + tau] * (g * xx).sum() +
+                                           h[lh - tau] * (g * np.conj(xx)).sum())
 
     tfr = np.real(np.fft.fft(tfr, axis=0)).ravel()
     tf2 = np.real(np.fft.fft(tf2, axis=0)).ravel()
-- 
2.43.0


From 694a1c03848219d8fd252447d7337ba89f50ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:27 +0000
Subject: [PATCH 091/114] fix: use the whole window when the number of bins is
 4 k + 1

---
 tftb/processing/cohen.py      | 4 ++--
 tftb/processing/reassigned.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 5bc2dbb..c6a46f4 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -22,7 +22,7 @@ class Spectrogram(ShortTimeFourierTransform):
     def run(self):
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
-        rangemin = min([round(self.n_fbins / 2.0) - 1, lh])
+        rangemin = min([(self.n_fbins + 1) // 2 - 1, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts - 1],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
@@ -286,7 +286,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
     for icol in range(timestamps.shape[0]):
         ti = timestamps[icol]
         taumax = min([ti + lg - 1, signal.shape[0] - ti + lg,
-                      round(freq_bins / 2.0) - 1, lh])
+                      (freq_bins + 1) // 2 - 1, lh])
         points = np.arange(-min([lg, signal.shape[0] - ti]),
                            min([lg, ti - 1]) + 1).astype(int)
         lg_points = (lg + points).astype(int)
diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 39e3e2e..915ecc5 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -514,8 +514,8 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
 
     for icol in range(time_samples.shape[0]):
         ti = time_samples[icol]
-        tau = np.arange(-np.min([np.round(n_fbins / 2) - 1, lh, ti - 1]),
-                        np.min([np.round(n_fbins / 2) - 1, lh,
+        tau = np.arange(-np.min([(n_fbins + 1) // 2 - 1, lh, ti - 1]),
+                        np.min([(n_fbins + 1) // 2 - 1, lh,
                                 signal.shape[0] - ti]) + 1).astype(int)
         indices = np.remainder(n_fbins + tau, n_fbins)
         norm_h = np.linalg.norm(window[lh + tau], ord=2)
-- 
2.43.0


From 1da3acc6969b3a79dbbff0ab0b9cbcece5607382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:13 +0000
Subject: [PATCH 092/114] fix: keep the Page distribution causal

---
 tftb/processing/cohen.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index c6a46f4..310aff2 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -53,8 +53,7 @@ class PageRepresentation(BaseTFRepresentation):
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
-            tau = np.arange(-min([self.n_fbins - ti,
-                                  self.signal.shape[0] - ti]) + 1, ti + 1)
+            tau = np.arange(min([self.n_fbins - 1, ti]) + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = np.dot(self.signal[ti],
                                              np.conj(self.signal[ti - tau]))
-- 
2.43.0


From c7c1b7b5cd031d16c75d5bffa539c38537068f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:16 +0000
Subject: [PATCH 093/114] fix: ignore the window beyond half the bins in the
 short time Fourier transform

---
 tftb/processing/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 86246d8..1de0253 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -57,7 +57,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         Where :math:`w` is a Hamming window."""
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
-        rangemin = min([round(self.n_fbins / 2.0), lh])
+        rangemin = min([(self.n_fbins + 1) // 2 - 1, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
                                np.arange(self.ts.shape[0]) - 1],
                          axis=1).astype(int)
-- 
2.43.0


From dd0630d0352342f1702aa88d8b94205137285f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:19 +0000
Subject: [PATCH 094/114] fix: find the next power of two of large numbers

---
 tftb/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 0042330..21ff758 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -58,8 +58,11 @@ def nextpow2(n):
     [ 0.  1.  2.  2.  3.  3.  3.  3.]
     """
     if isinstance(n, np.ndarray):
-        return np.ceil(np.log2(n))
-    return math.ceil(math.log2(n))
+        exponent = np.ceil(np.log2(n))
+    else:
+        exponent = math.ceil(math.log2(n))
+    # the logarithm of a number next to a power of two may round to its exponent
+    return exponent + (2.0 ** exponent < n)
 
 
 def divider(N):
-- 
2.43.0


From 909913271eea7fa1457adbfe641e1ec20f5c7866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:22 +0000
Subject: [PATCH 095/114] fix: find the dividers of large numbers

---
 tftb/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 21ff758..6fab3ea 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -83,11 +83,10 @@ def divider(N):
     >>> print(divider(101))
     (1, 101)
     """
-    s = math.sqrt(N)
-    if s % 1 == 0:
-        s = int(s)
+    s = math.isqrt(int(N))
+    if s * s == N:
         return s, s
-    s = math.ceil(s)
+    s += 1
     for i in range(s, 0, -1):
         factor = N // i
         if N % i == 0:
-- 
2.43.0


From 25f89668342b506c4aadc45153f72ae4ed636d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:25 +0000
Subject: [PATCH 096/114] fix: make linear chirps of one sample

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 42586c4..93fd218 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -103,7 +103,7 @@ def fmlin(n_points, fnormi=0.0, fnormf=0.5, t0=None):
 
     else:
         y = np.arange(1, n_points + 1)
-        y = fnormi * (y - t0) + ((fnormf - fnormi) / (2.0 * (n_points - 1))) * \
+        y = fnormi * (y - t0) + ((fnormf - fnormi) / (2.0 * max(n_points - 1, 1))) * \
             ((y - 1) ** 2 - (t0 - 1) ** 2)
         y = np.exp(1j * 2.0 * np.pi * y)
         y = y / y[int(t0) - 1]
-- 
2.43.0


From 7e4f032b6e5cc910d0610effb6602617d6b8afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 097/114] fix: use at least two voices by default

---
 tftb/processing/affine.py    | 2 +-
 tftb/processing/ambiguity.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 793f6de..6210a3a 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -69,7 +69,7 @@ class AffineDistribution(BaseTFRepresentation):
             * np.log((1 + self.R / 2) / (1 - self.R / 2))
         )
         nq = np.ceil(q / 2)
-        nmin = nq - nq % 2
+        nmin = max([2, nq - nq % 2])
         ndflt = 2 ** nextpow2(nmin)
         self.n_voices = int(ndflt)
 
diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index 9b06156..b8a505c 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -49,7 +49,7 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
     B = fmax - fmin
     R = B / ((fmin + fmax) / 2.0)
     nq = np.ceil((B * T * (1 + 2.0 / R) * np.log((1 + R / 2.0) / (1 - R / 2.0))) / 2.0)  # NOQA
-    nmin = nq - (nq % 2)
+    nmin = max([2, nq - (nq % 2)])
     if N is None:
         N = int(2 ** (nextpow2(nmin)))
 
-- 
2.43.0


From 0592fb43449a4dcf8a06eb6ed4ad6ccba3bed324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 098/114] fix: reduce complex numbers with a real one among
 them

---
 tftb/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 6fab3ea..621f7c2 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -134,7 +134,7 @@ def modulo(x, N):
     >>> print(modulo(range(1, 11), 2))
     [1 2 1 2 1 2 1 2 1 2]
     """
-    if any(np.isreal(x)):
+    if np.isrealobj(x):
         y = np.mod(x, N)
         y[y == 0] = N
     else:
-- 
2.43.0


From 224607ae948ede29dfa67ae76f28544d527776b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 099/114] fix: accept row and column signals in every
 representation

---
 tftb/processing/ambiguity.py  |  2 +-
 tftb/processing/cohen.py      |  1 +
 tftb/processing/linear.py     |  1 +
 tftb/processing/reassigned.py | 12 ++++++------
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index b8a505c..dd68501 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -110,7 +110,7 @@ def narrow_band(signal, lag=None, n_fbins=None):
     :rtype: array-like
     """
 
-    signal = signal * 1.0
+    signal = signal.ravel() * 1.0
     n = signal.shape[0]
     if lag is None:
         if n % 2 == 0:
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 310aff2..68550cc 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -258,6 +258,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
     :return: Smoothed pseudo Wigner Ville distribution
     :rtype: array-like
     """
+    signal = signal.ravel()
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
     if freq_bins is None:
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 1de0253..68f8a7e 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -124,6 +124,7 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
     :return: Tuple of Gabor coefficients, biorthogonal window associated with the synthesis window.
     :rtype: tuple
     """
+    signal = signal.ravel()
     if n_coeff is None:
         n_coeff, _ = divider(signal.shape[0])
     if q_oversample is None:
diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 915ecc5..fa97785 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -27,7 +27,7 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
 :return:
 :rtype:
     """
-    signal = signal * 1.0
+    signal = signal.ravel() * 1.0
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
@@ -107,7 +107,7 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
 :return:
 :rtype:
     """
-    signal = signal * 1.0
+    signal = signal.ravel() * 1.0
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
@@ -183,7 +183,7 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
 :return:
 :rtype:
     """
-    signal = signal * 1.0
+    signal = signal.ravel() * 1.0
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
     if n_fbins is None:
@@ -257,7 +257,7 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
 :return:
 :rtype:
     """
-    signal = signal * 1.0
+    signal = signal.ravel() * 1.0
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
@@ -372,7 +372,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     :return:
     :rtype:
     """
-    signal = signal * 1.0
+    signal = signal.ravel() * 1.0
     xrow = signal.shape[0]
 
     if timestamps is None:
@@ -491,7 +491,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
         vectors
     :rtype: tuple(array-like)
     """
-    signal = signal * 1.0
+    signal = signal.ravel() * 1.0
     if time_samples is None:
         time_samples = np.arange(signal.shape[0])
     elif np.unique(np.diff(time_samples)).shape[0] > 1:
-- 
2.43.0


From 014d76c8c8605ea89e1a5d425ffbb04f283ca1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:48 +0000
Subject: [PATCH 100/114] fix: read the default band of signals of odd length
 off the right bins

---
 tftb/processing/affine.py    | 6 +++---
 tftb/processing/ambiguity.py | 5 ++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 6210a3a..adc28a8 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -44,11 +44,11 @@ class AffineDistribution(BaseTFRepresentation):
                 np.fft.fftshift(self.s2[self.ts.min(): self.ts.max() + 1])
             )
             nstf = stf1.shape[0]
-            sp1 = np.abs(stf1[: int(np.round(nstf / 2))]) ** 2
-            sp2 = np.abs(stf2[: int(np.round(nstf / 2))]) ** 2
+            sp1 = np.abs(stf1[: (nstf + 1) // 2]) ** 2
+            sp2 = np.abs(stf2[: (nstf + 1) // 2]) ** 2
             maxsp1 = sp1.max()
             maxsp2 = sp2.max()
-            f = np.linspace(0, 0.5, int(np.round(nstf / 2.0) + 1))
+            f = np.arange((nstf + 1) // 2) / nstf
             if fmin is None:
                 mask = sp1 > maxsp1 / 100
                 indmin = np.arange(mask.shape[0], dtype=int)[mask.astype(bool)].min()
diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index dd68501..0a3f806 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -36,10 +36,9 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
     # determine default values for fmin, fmax
     if (fmin is None) or (fmax is None):
         STF = np.fft.fft(np.fft.fftshift(s_ana))
-        sp = np.abs(STF[:m]) ** 2
+        sp = np.abs(STF[:((nx + 1) // 2)]) ** 2
         maxsp = np.amax(sp)
-        f = np.linspace(0, 0.5, m + 1)
-        f = f[:m]
+        f = np.arange((nx + 1) // 2) / float(nx)
         indmin = _find(sp > maxsp / 100.0).min()
         indmax = _find(sp > maxsp / 100.0).max()
         if fmin is None:
-- 
2.43.0


From 24080cc3de36867f326487a897154358c5a81db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 101/114] fix: leave room around a single frequency in the
 default band

---
 tftb/processing/affine.py    | 11 +++++++++--
 tftb/processing/ambiguity.py | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index adc28a8..6cfa178 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -49,14 +49,21 @@ class AffineDistribution(BaseTFRepresentation):
             maxsp1 = sp1.max()
             maxsp2 = sp2.max()
             f = np.arange((nstf + 1) // 2) / nstf
-            if fmin is None:
+            fmin_given, fmax_given = fmin is not None, fmax is not None
+            if not fmin_given:
                 mask = sp1 > maxsp1 / 100
                 indmin = np.arange(mask.shape[0], dtype=int)[mask.astype(bool)].min()
                 fmin = max([0.01, 0.05 * np.floor(f[indmin] / 0.05)])
-            if fmax is None:
+            if not fmax_given:
                 mask = sp2 > maxsp2 / 100
                 indmax = np.arange(mask.shape[0], dtype=int)[mask.astype(bool)].max()
                 fmax = 0.05 * np.ceil(f[indmax] / 0.05)
+            if fmin >= fmax:
+                # a single frequency: the band extends to both its sides
+                if not fmin_given:
+                    fmin = max([0.01, fmax - 0.05])
+                if not fmax_given:
+                    fmax = fmax + 0.05
         self.fmax, self.fmin = fmax, fmin
         self.bw = fmax - fmin
         self.R = self.bw / (fmin + fmax) * 2
diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index 0a3f806..88e5bf1 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -41,10 +41,17 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
         f = np.arange((nx + 1) // 2) / float(nx)
         indmin = _find(sp > maxsp / 100.0).min()
         indmax = _find(sp > maxsp / 100.0).max()
-        if fmin is None:
+        fmin_given, fmax_given = fmin is not None, fmax is not None
+        if not fmin_given:
             fmin = max([0.01, 0.05 * np.fix(f[indmin] / 0.05)])
-        if fmax is None:
+        if not fmax_given:
             fmax = 0.05 * np.ceil(f[indmax] / 0.05)
+        if fmin >= fmax:
+            # a single frequency: the band extends to both its sides
+            if not fmin_given:
+                fmin = max([0.01, fmax - 0.05])
+            if not fmax_given:
+                fmax = fmax + 0.05
     B = fmax - fmin
     R = B / ((fmin + fmax) / 2.0)
     nq = np.ceil((B * T * (1 + 2.0 / R) * np.log((1 + R / 2.0) / (1 - R / 2.0))) / 2.0)  # NOQA
-- 
2.43.0


From 6b6404054a239292b01eff103a3b781fc1fa9d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 102/114] fix: read the threshold of the reassigned pseudo
 Wigner-Ville at its instants

---
 tftb/processing/reassigned.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index fa97785..8bfe2b8 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -75,9 +75,8 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
     tf2 = tf2.reshape(n_fbins, tcol)
 
     rtfr = np.zeros((n_fbins, tcol), dtype=complex)
-    tmin = timestamps.min()
-    tmax = timestamps.max()
-    threshold = 1.0e-6 * (np.abs(signal[tmin:(tmax + 1)]) ** 2).mean()
+    ix = np.arange(timestamps.min(), timestamps.max() + 1) - 1
+    threshold = 1.0e-6 * (np.abs(signal[ix]) ** 2).mean()
 
     for icol in range(tcol):
         for jcol in range(n_fbins):
-- 
2.43.0


From 66d779a4981e0cc2ee47d037bdba43627409d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 103/114] fix: reassign at a single instant

---
 tftb/processing/reassigned.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 8bfe2b8..940e7c5 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -264,7 +264,7 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
         n_fbins = signal.shape[0]
     k = 0.001
     tcol = timestamps.shape[0]
-    deltat = timestamps[1:] - timestamps[:-1]
+    deltat = timestamps[1:] - timestamps[:-1] if tcol > 1 else np.ones(1)
     if deltat.min() != deltat.max():
         raise ValueError("Time instants must be regularly sampled.")
     else:
@@ -395,7 +395,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     lg = (twindow.shape[0] - 1) // 2
 
     tcol = timestamps.shape[0]
-    deltat = timestamps[1:] - timestamps[:-1]
+    deltat = timestamps[1:] - timestamps[:-1] if tcol > 1 else np.ones(1)
     if deltat.min() != deltat.max():
         raise ValueError("Time instants must be regularly sampled.")
     else:
-- 
2.43.0


From 7c4d5350390a8db056a39169611266bf019055e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 104/114] fix: open one figure per surface plot

---
 tftb/processing/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index bcbd11a..a52754f 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -198,7 +198,6 @@ class BaseTFRepresentation(object):
                           **kwargs)
             elif kind == "surf":
                 from mpl_toolkits.mplot3d import Axes3D
-                fig = plt.figure()
                 ax = fig.add_subplot(projection="3d")
                 x = self.ts
                 y = self._get_row_freqs()
-- 
2.43.0


From 88d440034eca223feb3b86c3b54fadbe38620495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 105/114] fix: read the delay of an impulse on the first sample

---
 tftb/processing/freq_domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/freq_domain.py b/tftb/processing/freq_domain.py
index 420e83f..1b12a36 100644
--- a/tftb/processing/freq_domain.py
+++ b/tftb/processing/freq_domain.py
@@ -111,7 +111,7 @@ def group_delay(x, fnorm=None):
     if fnorm is None:
         numerator = np.fft.fft(x * np.arange(1, x.shape[0] + 1))
         denominator = np.fft.fft(x)
-        window = np.real(numerator / denominator) >= 1
+        window = np.real(numerator / denominator) >= 1 - 1e-6  # one, up to rounding
         ratio = np.real(numerator / denominator) * window.astype(int)
         ratio = ratio * (np.real(numerator / denominator) <= (len(x) + 3)).astype(int)
         gd = np.fft.fftshift(ratio)
@@ -119,7 +119,7 @@ def group_delay(x, fnorm=None):
         exponent = np.exp(-1j * 2.0 * np.pi * fnorm.reshape(len(fnorm), 1) * np.arange(len(x)))
         numerator = np.dot(exponent, (x * np.arange(1, x.shape[0] + 1)))
         denominator = np.dot(exponent, x)
-        window = np.real(numerator / denominator) >= 1
+        window = np.real(numerator / denominator) >= 1 - 1e-6  # one, up to rounding
         ratio = np.real(numerator / denominator) * window.astype(int)
         gd = ratio * (np.real(numerator / denominator) <= (len(x) + 3)).astype(int)
     return gd
-- 
2.43.0


From 11bcc0f48e63e1b883904948d10a358f4d1014c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 106/114] fix: sigmerge accepts a ratio given as a NumPy number

---
 tftb/generators/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tftb/generators/utils.py b/tftb/generators/utils.py
index 03460e2..960da01 100644
--- a/tftb/generators/utils.py
+++ b/tftb/generators/utils.py
@@ -1,3 +1,5 @@
+from numbers import Real
+
 import numpy as np
 from scipy.signal import hilbert
 from scipy.integrate import trapezoid
@@ -19,7 +21,7 @@ def sigmerge(x1, x2, ratio=0.0):
     """
     assert x1.ndim == 1
     assert x2.ndim == 1
-    assert type(ratio) in (float, int)
+    assert isinstance(ratio, Real)
     ex1 = np.mean(np.abs(x1 * 1.0) ** 2)
     ex2 = np.mean(np.abs(x2 * 1.0) ** 2)
     h = np.sqrt(ex1 / (ex2 * 10 ** (ratio / 10.0)))
-- 
2.43.0


From 07abbc5af5c20b2b75d15ebdc0fb99a0cff7c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:32 +0000
Subject: [PATCH 107/114] fix: representations at instants of an unsigned
 integer type

---
 tftb/processing/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index a52754f..1db66c6 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -35,6 +35,8 @@ class BaseTFRepresentation(object):
         self.signal = signal
         if timestamps is None:
             timestamps = np.arange(signal.shape[0])
+        elif timestamps.dtype.kind == "u":
+            timestamps = timestamps.astype(int)
         self.ts = self.timestamps = timestamps
         if n_fbins is None:
             n_fbins = signal.shape[0]
-- 
2.43.0


From e36bc84fc1f99f058b131bfb47ce8986020f7dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:34 +0000
Subject: [PATCH 108/114] fix: step between decreasing instants of an unsigned
 integer type

---
 tftb/processing/reassigned.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 940e7c5..60fce57 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -264,7 +264,7 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
         n_fbins = signal.shape[0]
     k = 0.001
     tcol = timestamps.shape[0]
-    deltat = timestamps[1:] - timestamps[:-1] if tcol > 1 else np.ones(1)
+    deltat = np.diff(timestamps.astype(int)) if tcol > 1 else np.ones(1)
     if deltat.min() != deltat.max():
         raise ValueError("Time instants must be regularly sampled.")
     else:
@@ -395,7 +395,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     lg = (twindow.shape[0] - 1) // 2
 
     tcol = timestamps.shape[0]
-    deltat = timestamps[1:] - timestamps[:-1] if tcol > 1 else np.ones(1)
+    deltat = np.diff(timestamps.astype(int)) if tcol > 1 else np.ones(1)
     if deltat.min() != deltat.max():
         raise ValueError("Time instants must be regularly sampled.")
     else:
@@ -527,7 +527,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     tf3 = np.fft.fft(tf3, axis=0).ravel()
 
     no_warn_mask = tfr != 0
-    dt = time_samples[1] - time_samples[0] if time_samples.shape[0] > 1 else 1
+    dt = int(time_samples[1]) - int(time_samples[0]) if time_samples.shape[0] > 1 else 1
     tf2[no_warn_mask] = np.round(np.real(tf2[no_warn_mask] / tfr[no_warn_mask] / dt))
     tf3[no_warn_mask] = np.round(
         np.imag(n_fbins * tf3[no_warn_mask] / tfr[no_warn_mask] / (2 * np.pi)))
-- 
2.43.0


From 80cbebfb3095ef1f6bb993c490f64665ec343cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 109/114] fix: integrals over unsigned axes and derivatives of
 short integer windows wrapped around

---
 tftb/processing/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tftb/processing/utils.py b/tftb/processing/utils.py
index bbfa84d..cdfa809 100644
--- a/tftb/processing/utils.py
+++ b/tftb/processing/utils.py
@@ -41,6 +41,7 @@ def integrate_2d(mat, x=None, y=None):
     if y is None:
         y = np.arange(m)
 
+    x, y = x * 1.0, y * 1.0  # differences of unsigned integers wrap around
     dx = (x[1:] - x[:(n - 1)]) / 2.0
     mat = np.dot(mat, np.r_[dx, 0] + np.r_[0, dx])
     dmat = mat[:(m - 1)] + mat[1:]
@@ -66,6 +67,7 @@ def derive_window(window):
 
     .. plot:: docstring_plots/processing/utils/derive_window.py
     """
+    window = window * 1.0  # sums of short integers wrap around
     lh = (window.shape[0] - 1) / 2.0
     step_height = (window[0] + window[-1]) / 2.0
     ramp = (window[-1] - window[0]) / (window.shape[0] - 1)
-- 
2.43.0


From 53a517c87fa0df5f991c97123653bce78f1431d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:58 +0000
Subject: [PATCH 110/114] fix: nearest_odd refused ranges and tuples, its
 documented example included

---
 tftb/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 621f7c2..b922182 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -109,7 +109,7 @@ def nearest_odd(N):
     >>> nearest_odd(3)
     3.0
     """
-    if isinstance(N, (list, np.ndarray)):
+    if isinstance(N, (list, tuple, range, np.ndarray)):
         y = np.floor(N)
         y[np.remainder(y, 2) == 0] += 1
         return y.astype(int)
-- 
2.43.0


From 9a18bd607c6f754c1ce9f331ecd603e9eb4d2d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:45 +0000
Subject: [PATCH 111/114] fix: amexpos took any unknown kind for unilateral

---
 tftb/generators/amplitude_modulated.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tftb/generators/amplitude_modulated.py b/tftb/generators/amplitude_modulated.py
index 1a502ff..1b0e196 100644
--- a/tftb/generators/amplitude_modulated.py
+++ b/tftb/generators/amplitude_modulated.py
@@ -75,6 +75,8 @@ def amexpos(n_points, t0=None, spread=None, kind="bilateral"):
         tmt0 = np.arange(n_points) - t0
         if kind == "bilateral":
             y = np.exp(-sqrt(2 * np.pi) * np.abs(tmt0) / spread)
+        elif kind != "unilateral":
+            raise ValueError("kind must be 'bilateral' or 'unilateral'.")
         else:
             y = np.exp(-sqrt(np.pi) * np.maximum(tmt0, 0) / spread) * (tmt0 >= 0.0)
         return y
-- 
2.43.0


From 8e6c273dfec7b66ddd5d4e99d061f4120b9a248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 112/114] fix: lambdak was not a number at zero for all kernels
 but Bertrand's

---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 6cfa178..841d92d 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -465,14 +465,14 @@ class BertrandDistribution(AffineDistribution):
 def lambdak(u, k):
     method_lookup = {"bertrand": 0, "unterberger": -1, "d_flandrin": 0.5, "aspwv": 2}
     k = method_lookup[k]
+    if u == 0:
+        return 1
     if k not in (0, 1):
         y = k * (np.exp(-u) - 1) / (np.exp(-k * u) - 1)
         y = y ** (1 / (k - 1))
     elif k == 1:
         y = np.exp(1 + u * np.exp(-u) / (np.exp(-u) - 1))
     elif k == 0:
-        if u == 0:
-            return 1
         y = -u / (np.exp(-u) - 1)
     return y
 
-- 
2.43.0


From 7c9db70bedb056f33f89ef6e33acbc76af683f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:27 +0000
Subject: [PATCH 113/114] fix: Gabor dual windows of weak synthesis windows

---
 tftb/processing/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 68f8a7e..cd77e62 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -153,7 +153,7 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
         mod = modulo(x - l * m / q_oversample, m).astype(int)
         mzh += np.abs(dzth[:, mod - 1]) ** 2
 
-    mzh[mzh < np.spacing(1)] = 1
+    mzh[mzh <= np.spacing(1) * np.max(mzh)] = 1
 
     # Za transform of biorthogonal dual frame window gam
     dztgam = dzth / mzh
-- 
2.43.0


From 26eba59db2970b6d072e0edde21c5b9bf1eb6b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:10 +0000
Subject: [PATCH 114/114] fix: the spectrum beside an affine plot left out the
 end of long signals

---
 tftb/processing/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 1db66c6..424eaec 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -51,9 +51,11 @@ class BaseTFRepresentation(object):
         if not self.isaffine:
             return np.fft.fftshift(np.abs(np.fft.fft(self.signal)) ** 2)
         nf2 = self.tfr.shape[0]
-        spec = np.abs(np.fft.fft(self.signal[self.ts.min():(self.ts.max() + 1)],
-                                 2 * nf2)) ** 2
-        return spec[:nf2]
+        signal = self.signal[self.ts.min():(self.ts.max() + 1)]
+        # a transform shorter than the signal would leave its end out
+        step = -(-signal.shape[0] // (2 * nf2))
+        spec = np.abs(np.fft.fft(signal, 2 * nf2 * step)) ** 2
+        return spec[:(nf2 * step):step]
 
     def _get_row_freqs(self):
         return np.linspace(0, 0.5, self.tfr.shape[0])
-- 
2.43.0

