From 0047e03e9a88c1cb797c9fe06cafaa2ba74442d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 01/32] fix: ridge back-tracking ties no longer depend on
 thread scheduling

---
 ssqueezepy/ridge_extraction.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 2fbbf93..ad69f98 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -219,6 +219,7 @@ def __accumulated_penalty_energy_bwp(e, penalty_matrix, pen_e, ridge_idxs_fw,
                                      eps):
     # adding `prange` to `tidx` makes whole computation much faster (x3-4),
     # but breaks it on *some* inputs (unpredictably)
+    matched = np.zeros(e.shape[0], dtype=np.bool_)
     for tidx in range(e.shape[1] - 1):
         # `prange` only supports a step size of 1, so we use a trick
         # actually can't `prange` `tidx`, not thread-safe
@@ -227,6 +228,11 @@ def __accumulated_penalty_energy_bwp(e, penalty_matrix, pen_e, ridge_idxs_fw,
                e[    ridge_idxs_fw[idx_time + 1], idx_time + 1])
         for idx_freq in prange(e.shape[0]):
             new_penalty = penalty_matrix[ridge_idxs_fw[idx_time + 1], idx_freq]
+            matched[idx_freq] = abs(val - (pen_e[idx_freq, idx_time] +
+                                           new_penalty)) < eps
 
-            if abs(val - (pen_e[idx_freq, idx_time] + new_penalty)) < eps:
+        # several frequencies can match (ties); writing `ridge_idxs_fw` from
+        # within `prange` would let whichever thread runs last win
+        for idx_freq in range(e.shape[0]):
+            if matched[idx_freq]:
                 ridge_idxs_fw[idx_time] = idx_freq
-- 
2.43.0


From 094bfeeea16d2ae656affbf707e957d3ef5706aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 02/32] fix: serial log-piecewise `find_closest` skips inf like
 the parallel one

---
 ssqueezepy/algos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 770589a..9e5e981 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -405,6 +405,8 @@ def _find_closest_log_piecewise(a, out, vlmin0, vlmin1, dvl0, dvl1, idx1,
                                 omax):
     for i in range(a.shape[0]):
         for j in range(a.shape[1]):
+            if np.isinf(a[i, j]):
+                continue
             al = np.log2(a[i, j])
             if al > vlmin1:
                 out[i, j] = min(round((al - vlmin1) / dvl1) + idx1, omax)
-- 
2.43.0


From ced6a629f58ce5085ee981a4f3453a07734e2202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 03/32] fix: `cwt` & `icwt` no longer write `norm` into the
 caller's GMW options

---
 ssqueezepy/_cwt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index fc1a663..ca8067a 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -503,7 +503,8 @@ def _process_gmw_wavelet(wavelet, l1_norm):
 
     elif isinstance(wavelet, tuple) and wavelet[0].lower()[:3] == 'gmw':
         wavelet, wavopts = wavelet
-        wavopts['norm'] = wavopts.get('norm', norm)
+        # copy: don't write `norm` into caller's dict
+        wavopts = {**wavopts, 'norm': wavopts.get('norm', norm)}
         wavelet = (wavelet, wavopts)
 
     elif isinstance(wavelet, Wavelet):
-- 
2.43.0


From e0c980eac7346b0a1138452cf7de191aca2c9144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 04/32] fix: `Wavelet.Psih` never returns an array computed for
 other arguments

---
 ssqueezepy/wavelets.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 72564bb..1e3d39a 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -140,24 +140,38 @@ class Wavelet():
 
         If both `scale` & `N` are None, will return previously computed `Psih`.
         """
-        pN = getattr(self, '_Psih_N', S.array([-1]))
-        ps = getattr(self, '_Psih_scale', S.array([-1]))
-        N_is_None = N is None
+        # `_Psih` and what it was computed for are always read & replaced together
+        # (`None` if there's none), so that a failure, or another thread, never
+        # leaves an array paired with arguments it wasn't computed for
+        psih, pN, ps, pnohalf = (getattr(self, '_Psih_cached', None) or
+                                 (None, None, None, None))
+        if psih is not None and scale is None and N is None:
+            return psih
+
         N = N or self.N
-        if ((scale is None and N_is_None) or
-                (N == pN and (len(scale) == len(ps) and S.allclose(scale, ps)))):
-            return self._Psih
+        # store independent of external copy
+        scale_copy = scale.clone() if S.is_tensor(scale) else np.array(scale)
+        if (psih is not None and N == pN and nohalf == pnohalf and
+                type(scale_copy) == type(ps) and scale_copy.shape == ps.shape and
+                bool((scale_copy == ps).all())):
+            return psih
 
         # first empty existing to free memory
-        if getattr(self, '_Psih', None) is not None:
-            self._Psih = None
+        if psih is not None:
+            self._Psih_cached = psih = None
             gc.collect()
 
-        self._Psih = self(scale=scale, N=N, nohalf=nohalf)
-        self._Psih_N = N
-        # store independent of external copy
-        self._Psih_scale = scale.clone() if S.is_tensor(scale) else scale.copy()
-        return self._Psih
+        psih = self(scale=scale, N=N, nohalf=nohalf)
+        self._Psih_cached = (psih, N, scale_copy, nohalf)
+        return psih
+
+    @property
+    def _Psih(self):
+        return (getattr(self, '_Psih_cached', None) or (None,))[0]
+
+    @property
+    def _Psih_scale(self):
+        return (getattr(self, '_Psih_cached', None) or (None,) * 3)[2]
 
     @property
     def N(self):
-- 
2.43.0


From d593a7a17e56d2623a3a3783d75e754585ed7864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 05/32] fix: `cwt` doesn't modify `wavelet.N` and global FFT
 settings while it runs

---
 ssqueezepy/_cwt.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index ca8067a..c932482 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -166,14 +166,14 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
     """
     def _vectorized(xh, scales, wavelet, derivative, cache_wavelet):
         if cache_wavelet:
-            Psih_xh = wavelet.Psih(scale=scales, nohalf=False) * xh
+            Psih_xh = wavelet.Psih(scale=scales, N=Np, nohalf=False) * xh
         else:
-            Psih_xh = wavelet(scale=scales, nohalf=False) * xh
+            Psih_xh = wavelet(scale=scales, N=Np, nohalf=False) * xh
 
-        Wx = ifft(Psih_xh, axis=-1, astensor=True)
+        Wx = ifft(Psih_xh, axis=-1, patience=patience, astensor=True)
         if derivative:
-            Psih_xh *= (1j * wavelet.xi / dt)
-            dWx = ifft(Psih_xh, axis=-1, astensor=True)
+            Psih_xh *= (1j * wavelet.xifn(N=Np) / dt)
+            dWx = ifft(Psih_xh, axis=-1, patience=patience, astensor=True)
         return (Wx, dWx) if derivative else (Wx, None)
 
     def _for_loop(xh, scales, wavelet, derivative, is_2D):
@@ -190,12 +190,13 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
                    (slice(None), slice(i, i + 1)))    # Wx[:, i]
 
             # sample FT of wavelet at scale `a`
-            psih = wavelet(scale=scale, nohalf=False)
-            Wx[idx] = ifft(psih * xh, axis=-1, astensor=True)
+            psih = wavelet(scale=scale, N=Np, nohalf=False)
+            Wx[idx] = ifft(psih * xh, axis=-1, patience=patience, astensor=True)
 
             if derivative:
-                dpsih = (1j * wavelet.xi / dt) * psih
-                dWx[idx] = ifft(dpsih * xh, axis=-1, astensor=True)
+                dpsih = (1j * wavelet.xifn(N=Np) / dt) * psih
+                dWx[idx] = ifft(dpsih * xh, axis=-1, patience=patience,
+                                astensor=True)
         return (Wx, dWx) if derivative else (Wx, None)
 
     def _process_args(x, scales, nv, fs, t, nan_checks, wavelet, cache_wavelet):
@@ -274,11 +275,13 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
     scales = process_scales(scales, N, wavelet, nv=nv)
     scales = S.asarray(scales, dtype)
 
-    # temporarily adjust `wavelet.N` & `FFT_GLOBAL.patience`
-    wavelet_N_orig = wavelet.N
-    wavelet.N = xp.shape[-1]
-    patience_orig = (FFT_GLOBAL.patience, FFT_GLOBAL.planning_timelimit)
-    FFT_GLOBAL.patience = patience
+    # sample `wavelet` at padded length, and FFT with `patience`. These are passed
+    # along rather than set on `wavelet` & `FFT_GLOBAL`, which are shared with other
+    # calls and would be left modified if this one failed
+    Np = xp.shape[-1]
+    FFT_GLOBAL._validate_patience(patience)
+    if isinstance(patience, tuple) and patience[0] == 0:
+        patience = 0
 
     # take CWT
     if vectorized:
@@ -286,10 +289,6 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
     else:
         Wx, dWx = _for_loop(xh, scales, wavelet, derivative, is_2D)
 
-    # restore
-    wavelet.N = wavelet_N_orig
-    FFT_GLOBAL.patience = patience_orig
-
     # handle unpadding, normalization
     if not rpadded and padtype is not None:
         # Wx[:, n1:n1 + N] if 1D else Wx[:, :, n1:n1 + N]
-- 
2.43.0


From 602910bfc2c4d0fb40a232749a709d69498b85c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 06/32] fix: cached FFT objects aren't reused for other
 transforms, nor share output

---
 ssqueezepy/utils/fft_utils.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index 7ae6656..d501291 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -94,7 +94,7 @@ class FFT():
         cache_fft_objects: bool (default False)
             If True, `pyfftw` objects generated throughout session are stored in
             `FFT._input_history`, and retrieved if all of below match:
-                `(x.shape, x.dtype, real, patience, n)`
+                `(x.shape, x.dtype, axis, real, inverse, patience, n, threads)`
             where `patience` includes `planning_timelimit` as a tuple.
             Default False since loading from wisdom is very fast anyway.
 
@@ -164,7 +164,7 @@ class FFT():
             return sfft(x, axis=axis, workers=self.threads)
 
         fft_object = self._get_save_fill(x, axis, patience, real=False)
-        return fft_object()
+        return self._run(fft_object)
 
     def rfft(self, x, axis=-1, patience=None, astensor=False):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -177,7 +177,7 @@ class FFT():
             return srfft(x, axis=axis, workers=self.threads)
 
         fft_object = self._get_save_fill(x, axis, patience, real=True)
-        return fft_object()
+        return self._run(fft_object)
 
     def ifft(self, x, axis=-1, patience=None, astensor=False):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -191,7 +191,7 @@ class FFT():
 
         fft_object = self._get_save_fill(x, axis, patience, real=False,
                                          inverse=True)
-        return fft_object()
+        return self._run(fft_object)
 
     def irfft(self, x, axis=-1, patience=None, astensor=False, n=None):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -205,7 +205,7 @@ class FFT():
 
         fft_object = self._get_save_fill(x, axis, patience, real=True,
                                          inverse=True, n=n)
-        return fft_object()
+        return self._run(fft_object)
 
     def fftshift(self, x, axes=-1, astensor=False):
         out = self._maybe_gpu('fftshift', x, dim=axes, astensor=astensor)
@@ -228,6 +228,11 @@ class FFT():
             return out if astensor else out.cpu().numpy()
         return None
 
+    def _run(self, fft_object):
+        out = fft_object()
+        # cached object's next call will overwrite its output array
+        return out.copy() if self.cache_fft_objects else out
+
     #### FFT makers ###########################################################
     def _get_save_fill(self, x, axis, patience, real, inverse=False, n=None):
         fft_object = self.get_fft_object(x, axis, patience, real, inverse, n)
@@ -237,7 +242,9 @@ class FFT():
 
     def get_fft_object(self, x, axis, patience=1, real=False, inverse=False,
                        n=None):
-        combo = (x.shape, x.dtype, axis, real, n)
+        planning = (patience if isinstance(patience, tuple) else
+                    (patience, self.planning_timelimit))
+        combo = (x.shape, x.dtype, axis, real, inverse, n, planning, self.threads)
         if self.cache_fft_objects and combo in self._input_history:
             fft_object = self._input_history[combo]
         else:
-- 
2.43.0


From 969cb217f4e48d74a7d26307751711ca5df9317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 07/32] fix: FFT wisdom is saved atomically, and failing to
 save or load it isn't fatal

---
 ssqueezepy/utils/fft_utils.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index d501291..ee0acd7 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -1,11 +1,13 @@
 # -*- coding: utf-8 -*-
 import numpy as np
 import multiprocessing
+import os
+import threading
 from scipy.fft import fftshift as sfftshift, ifftshift as sifftshift
 from scipy.fft import fft as sfft, rfft as srfft, ifft as sifft, irfft as sirfft
 from pathlib import Path
 from . import backend as S
-from ..configs import IS_PARALLEL
+from ..configs import IS_PARALLEL, WARN
 
 try:
     from torch.fft import (fft as tfft, rfft as trfft,
@@ -324,18 +326,35 @@ class FFT():
     def load_wisdom(self):
         for name in ('wisdom32', 'wisdom64'):
             path = getattr(self, f"_{name}_path")
-            if Path(path).is_file():
-                with open(path, 'rb') as f:
-                    setattr(self, f"_{name}", f.read())
+            try:
+                if Path(path).is_file():
+                    with open(path, 'rb') as f:
+                        setattr(self, f"_{name}", f.read())
+            except OSError as e:
+                # it's only an optimization; don't fail the import over it
+                WARN(f"couldn't load FFT wisdom from {path}: {e}")
         pyfftw.import_wisdom((self._wisdom64, self._wisdom32, b''))
 
     def save_wisdom(self):
-        """Will overwrite."""
+        """Will overwrite. Files are replaced whole, so that an interruption, or
+        another process or thread, never leaves or sees one that's half-written.
+        """
         self._wisdom64, self._wisdom32, _ = pyfftw.export_wisdom()
         for name in ('wisdom32', 'wisdom64'):
             path = getattr(self, f"_{name}_path")
-            with open(path, 'wb') as f:
-                f.write(getattr(self, f"_{name}"))
+            tmp = f"{path}.{os.getpid()}-{threading.get_ident()}.tmp"
+            try:
+                try:
+                    with open(tmp, 'wb') as f:
+                        f.write(getattr(self, f"_{name}"))
+                    os.replace(tmp, path)
+                except BaseException:
+                    if os.path.exists(tmp):
+                        os.remove(tmp)
+                    raise
+            except OSError as e:
+                # e.g. full disk or read-only install; transforms don't need it
+                WARN(f"couldn't save FFT wisdom to {path}: {e}")
 
     def _validate_input(self, x, axis, real, patience, inverse):
         """Assert is single/double precision and is 1D/2D."""
-- 
2.43.0


From e8bc83219dbed3f44e2e980656c9efbf80a03fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 08/32] fix: ssqueezing on frequencies that can't be binned
 raises instead of writing out of bounds

---
 ssqueezepy/algos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 9e5e981..8a44760 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -85,6 +85,10 @@ def _process_ssq_params(Wx, w_or_dWx, ssq_freqs, const, logscale, flipud, out,
         dv = float(ssq_freqs[1] - ssq_freqs[0])
         dv = _ensure_nonzero_nonnegative('dv', dv)
         params = dict(vmin=float(ssq_freqs[0]), dv=dv)
+    if not np.all(np.isfinite([float(p) for p in params.values()])):
+        # would index `out` out of bounds
+        raise ValueError("`ssq_freqs` must be finite%s; got %s" % (
+            " and positive" if logscale else "", ssq_freqs))
 
     if gpu:
         # process kernel params
-- 
2.43.0


From ba2e1cb3cc39340cb0c6624a5d4550bfa06bc9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 09/32] fix: don't overwrite saved FFT plans that couldn't be
 loaded

---
 ssqueezepy/utils/fft_utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index ee0acd7..641f3df 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -324,6 +324,7 @@ class FFT():
 
     #### Misc #################################################################
     def load_wisdom(self):
+        unloaded = []
         for name in ('wisdom32', 'wisdom64'):
             path = getattr(self, f"_{name}_path")
             try:
@@ -331,16 +332,25 @@ class FFT():
                     with open(path, 'rb') as f:
                         setattr(self, f"_{name}", f.read())
             except OSError as e:
+                unloaded.append(name)
                 # it's only an optimization; don't fail the import over it
                 WARN(f"couldn't load FFT wisdom from {path}: {e}")
         pyfftw.import_wisdom((self._wisdom64, self._wisdom32, b''))
+        self._unloaded = unloaded
 
     def save_wisdom(self):
         """Will overwrite. Files are replaced whole, so that an interruption, or
         another process or thread, never leaves or sees one that's half-written.
+        A file that couldn't be loaded isn't overwritten until it is, so as to not
+        discard its plans.
         """
+        if self._unloaded:
+            self.load_wisdom()
+        unloaded = self._unloaded
         self._wisdom64, self._wisdom32, _ = pyfftw.export_wisdom()
         for name in ('wisdom32', 'wisdom64'):
+            if name in unloaded:
+                continue
             path = getattr(self, f"_{name}_path")
             tmp = f"{path}.{os.getpid()}-{threading.get_ident()}.tmp"
             try:
-- 
2.43.0


From 03de0e78bcba4e3bd0d4e1fc30303edc629c815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 10/32] fix: TestSignals no longer modifies the caller's
 dictionaries

Filling in defaults and recording the measured SNR wrote into the dicts given
to make_signals() and TestSignals(), so repeating a call with the same dict
generated a different signal.
---
 ssqueezepy/_test_signals.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 4071b77..b0ce4eb 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -142,8 +142,9 @@ class TestSignals():
                  warn_alias=True, seed=None):
         self.N = N    or DEFAULT_N
         self.snr = snr or DEFAULT_SNR
-        self.default_args = default_args or DEFAULT_ARGS
-        self.default_tkw  = default_tkw  or DEFAULT_TKW
+        # copy so that neither caller's dicts nor module defaults are modified
+        self.default_args = dict(default_args or DEFAULT_ARGS)
+        self.default_tkw  = dict(default_tkw  or DEFAULT_TKW)
         self.warn_alias   = warn_alias
         self.seed = seed or DEFAULT_SEED
 
@@ -731,6 +732,8 @@ class TestSignals():
                     fparams, aparams = params, {}
             else:
                 name, fparams, aparams = signal, {}, {}
+            # defaults & measured `snr` are set below; don't modify caller's dicts
+            fparams, aparams = dict(fparams), dict(aparams)
 
             if name[0] == '#':
                 add_reversed = True
-- 
2.43.0


From 7b3a921e57590bd9df9e42923a25b53b63529906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:19 +0000
Subject: [PATCH 11/32] fix: TestSignals(seed=0) left the noise unseeded

`seed or DEFAULT_SEED` took 0 for 'not given', so noise depended on what had
used numpy's global generator before.
---
 ssqueezepy/_test_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index b0ce4eb..7718d3a 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -146,7 +146,7 @@ class TestSignals():
         self.default_args = dict(default_args or DEFAULT_ARGS)
         self.default_tkw  = dict(default_tkw  or DEFAULT_TKW)
         self.warn_alias   = warn_alias
-        self.seed = seed or DEFAULT_SEED
+        self.seed = seed if seed is not None else DEFAULT_SEED
 
         # set defaults on unspecified
         for k, v in DEFAULT_ARGS.items():
-- 
2.43.0


From f6502e47be0de4ba90fba034bbe0cd81fe130d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 12/32] fix: synchrosqueezing a non-finite or overflowing phase
 transform wrote out of bounds

NaN or inf in the STFT (or overflow in dWx/Wx) gave int(NaN) as row index, in
jitted code without bounds checks: heap corruption or crash.
---
 ssqueezepy/algos.py | 56 +++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 8a44760..90370e1 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -177,9 +177,9 @@ def indexed_sum_onfly(Wx, w, ssq_freqs, const=1, logscale=False, flipud=False,
 def _indexed_sum_log(Wx, w, out, const, vlmin, dvl, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):  # can't index `out`
                 continue
-            k = int(min(round(max((np.log2(w[i, j]) - vlmin) / dvl, 0)), omax))
+            k = int(round(min(max((np.log2(w[i, j]) - vlmin) / dvl, 0), omax)))
             if flipud:
                 k = omax - k
             out[k, j] += Wx[i, j] * const[i]
@@ -188,9 +188,9 @@ def _indexed_sum_log(Wx, w, out, const, vlmin, dvl, omax, flipud=False):
 def _indexed_sum_log_par(Wx, w, out, const, vlmin, dvl, omax, flipud=False):
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):  # can't index `out`
                 continue
-            k = int(min(round(max((np.log2(w[i, j]) - vlmin) / dvl, 0)), omax))
+            k = int(round(min(max((np.log2(w[i, j]) - vlmin) / dvl, 0), omax)))
             if flipud:
                 k = omax - k
             out[k, j] += Wx[i, j] * const[i]
@@ -201,11 +201,11 @@ def _indexed_sum_log_piecewise(Wx, w, out, const, vlmin0, vlmin1, dvl0, dvl1,
                                idx1, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):  # can't index `out`
                 continue
             wl = np.log2(w[i, j])
             if wl > vlmin1:
-                k = int(min(round((wl - vlmin1) / dvl1) + idx1, omax))
+                k = int(min(round(min((wl - vlmin1) / dvl1, omax)) + idx1, omax))
             else:
                 k = int(round(max((wl - vlmin0) / dvl0, 0)))
             if flipud:
@@ -219,11 +219,11 @@ def _indexed_sum_log_piecewise_par(Wx, w, out, const, vlmin0, vlmin1, dvl0, dvl1
     # of `vlmin`, `dvl`, and `idx`, which generalizes to any number of transitions
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):  # can't index `out`
                 continue
             wl = np.log2(w[i, j])
             if wl > vlmin1:
-                k = int(min(round((wl - vlmin1) / dvl1) + idx1, omax))
+                k = int(min(round(min((wl - vlmin1) / dvl1, omax)) + idx1, omax))
             else:
                 k = int(round(max((wl - vlmin0) / dvl0, 0)))
             if flipud:
@@ -235,9 +235,9 @@ def _indexed_sum_log_piecewise_par(Wx, w, out, const, vlmin0, vlmin1, dvl0, dvl1
 def _indexed_sum_lin(Wx, w, out, const, vmin, dv, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):  # can't index `out`
                 continue
-            k = int(min(round(max((w[i, j] - vmin) / dv, 0)), omax))
+            k = int(round(min(max((w[i, j] - vmin) / dv, 0), omax)))
             if flipud:
                 k = omax - k
             out[k, j] += Wx[i, j] * const[i]
@@ -246,9 +246,9 @@ def _indexed_sum_lin(Wx, w, out, const, vmin, dv, omax, flipud=False):
 def _indexed_sum_lin_par(Wx, w, out, const, vmin, dv, omax, flipud=False):
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):  # can't index `out`
                 continue
-            k = int(min(round(max((w[i, j] - vmin) / dv, 0)), omax))
+            k = int(round(min(max((w[i, j] - vmin) / dv, 0), omax)))
             if flipud:
                 k = omax - k
             out[k, j] += Wx[i, j] * const[i]
@@ -871,10 +871,12 @@ def _ssq_cwt_log_piecewise(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):  # overflow; can't index `out`
+                    continue
 
                 wl = np.log2(w_ij)
                 if wl > vlmin1:
-                    k = int(min(round((wl - vlmin1) / dvl1) + idx1, omax))
+                    k = int(min(round(min((wl - vlmin1) / dvl1, omax)) + idx1, omax))
                 else:
                     k = int(max(round((wl - vlmin0) / dvl0), 0))
                 if flipud:
@@ -890,10 +892,12 @@ def _ssq_cwt_log_piecewise_par(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):  # overflow; can't index `out`
+                    continue
 
                 wl = np.log2(w_ij)
                 if wl > vlmin1:
-                    k = int(min(round((wl - vlmin1) / dvl1) + idx1, omax))
+                    k = int(min(round(min((wl - vlmin1) / dvl1, omax)) + idx1, omax))
                 else:
                     k = int(max(round((wl - vlmin0) / dvl0), 0))
                 if flipud:
@@ -909,8 +913,10 @@ def _ssq_cwt_log(Wx, dWx, out, const, gamma, vlmin, dvl, omax, flipud=False):
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):  # overflow; can't index `out`
+                    continue
 
-                k = int(min(round(max((np.log2(w_ij) - vlmin) / dvl, 0)), omax))
+                k = int(round(min(max((np.log2(w_ij) - vlmin) / dvl, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -923,8 +929,10 @@ def _ssq_cwt_log_par(Wx, dWx, out, const, gamma, vlmin, dvl, omax, flipud=False)
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):  # overflow; can't index `out`
+                    continue
 
-                k = int(min(round(max((np.log2(w_ij) - vlmin) / dvl, 0)), omax))
+                k = int(round(min(max((np.log2(w_ij) - vlmin) / dvl, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -938,8 +946,10 @@ def _ssq_cwt_lin(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):  # overflow; can't index `out`
+                    continue
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -952,8 +962,10 @@ def _ssq_cwt_lin_par(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):  # overflow; can't index `out`
+                    continue
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -968,8 +980,10 @@ def _ssq_stft(Wx, dWx, Sfs, out, const, gamma, vmin, dv, omax, flipud=False):
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs(
                     Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):  # overflow; can't index `out`
+                    continue
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -983,8 +997,10 @@ def _ssq_stft_par(Wx, dWx, Sfs, out, const, gamma, vmin, dv, omax, flipud=False)
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs(
                     Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):  # overflow; can't index `out`
+                    continue
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
-- 
2.43.0


From 1096c3a3c3846abf6151e9130d425a4ddbf20ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 13/32] fix: FFT(threads=-1) raised with nonzero patience

---
 ssqueezepy/utils/fft_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index 641f3df..ec0e273 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -139,6 +139,9 @@ class FFT():
         """Set dynamically if `threads` wasn't passed in __init__."""
         if self._user_threads is None:
             return (multiprocessing.cpu_count() if IS_PARALLEL() else 1)
+        elif self._user_threads == -1:
+            # `pyfftw` doesn't interpret -1
+            return multiprocessing.cpu_count()
         return self._user_threads
 
     @property
-- 
2.43.0


From e2d5858d4df75ce58064b5e5cf87bdab764a67ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 14/32] fix: GMWs zeroed negative values of the array passed to
 them

---
 ssqueezepy/_gmw.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 6997d77..2229725 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -184,6 +184,12 @@ def compute_gmw(N, scale, gamma=3, beta=60, time=False, norm='bandpass',
     return (X, x) if time else X
 
 
+def _own_1d(w, dtype):
+    """Copies, since functions below zero negative `w` in-place."""
+    w = S.atleast_1d(w, dtype)
+    return w.clone() if S.is_tensor(w) else w.copy()
+
+
 def gmw_l1(gamma=3., beta=60., centered_scale=False, dtype='float64'):
     """Generalized Morse Wavelets, first order, L1(bandpass)-normalized.
     See `help(_gmw.gmw)`.
@@ -198,7 +204,7 @@ def gmw_l1(gamma=3., beta=60., centered_scale=False, dtype='float64'):
     if centered_scale:
         return lambda w: fn(S.atleast_1d(w * wc, dtype), gamma, beta, wc, wcl)
     else:
-        return lambda w: fn(S.atleast_1d(w, dtype), gamma, beta, wc, wcl)
+        return lambda w: fn(_own_1d(w, dtype), gamma, beta, wc, wcl)
 
 @jit(nopython=True, cache=True)
 def _gmw_l1(w, gamma, beta, wc, wcl):
@@ -241,7 +247,7 @@ def gmw_l2(gamma=3., beta=60., centered_scale=False, dtype='float64'):
         return lambda w: fn(S.atleast_1d(w * wc, dtype), gamma, beta, wc,
                             r, rgamma)
     else:
-        return lambda w: fn(S.atleast_1d(w, dtype), gamma, beta, wc, r, rgamma)
+        return lambda w: fn(_own_1d(w, dtype), gamma, beta, wc, r, rgamma)
 
 @jit(nopython=True, cache=True)
 def _gmw_l2(w, gamma, beta, wc, r, rgamma):
@@ -280,7 +286,7 @@ def gmw_l1_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
         return lambda w: fn(S.atleast_1d(w * wc, dtype), gamma, beta, wc,
                             k_consts)
     else:
-        return lambda w: fn(S.atleast_1d(w, dtype), gamma, beta, wc, k_consts)
+        return lambda w: fn(_own_1d(w, dtype), gamma, beta, wc, k_consts)
 
 @jit(nopython=True, cache=True)
 def _gmw_l1_k(w, gamma, beta, wc, k_consts):
@@ -331,7 +337,7 @@ def gmw_l2_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
         return lambda w: fn(S.atleast_1d(w * wc, dtype), gamma, beta, wc,
                             k_consts)
     else:
-        return lambda w: fn(S.atleast_1d(w, dtype), gamma, beta, wc, k_consts)
+        return lambda w: fn(_own_1d(w, dtype), gamma, beta, wc, k_consts)
 
 @jit(nopython=True, cache=True)
 def _gmw_l2_k(w, gamma, beta, wc, k_consts):
-- 
2.43.0


From e3d8fd0edd14a54fad87ea853f374819539340d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 15/32] fix: explicit `parallel=False` was ignored unless
 parallelism was disabled globally

---
 ssqueezepy/algos.py            | 6 +++---
 ssqueezepy/utils/stft_utils.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 90370e1..87374d1 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -45,7 +45,7 @@ def _process_ssq_params(Wx, w_or_dWx, ssq_freqs, const, logscale, flipud, out,
                         gamma, parallel, complex_out=True, Sfs=None):
     S.warn_if_tensor_and_par(Wx, parallel)
     gpu = S.is_tensor(Wx)
-    parallel = (parallel or IS_PARALLEL()) and not gpu
+    parallel = (parallel if parallel is not None else IS_PARALLEL()) and not gpu
 
     # process `Wx`, `w_or_dWx`, `out`
     if out is None:
@@ -718,7 +718,7 @@ def phase_cwt_cpu(Wx, dWx, gamma, parallel=None):
     out = np.zeros(Wx.shape, dtype=dtype)
     gamma = np.asarray(gamma, dtype=dtype)
 
-    parallel = parallel or IS_PARALLEL()
+    parallel = parallel if parallel is not None else IS_PARALLEL()
     fn = _phase_cwt_par if parallel else _phase_cwt
     fn(Wx, dWx, out, gamma)
     return out
@@ -792,7 +792,7 @@ def phase_stft_cpu(Wx, dWx, Sfs, gamma, parallel=None):
     out = np.zeros(Wx.shape, dtype=dtype)
     gamma = np.asarray(gamma, dtype=dtype)
 
-    parallel = parallel or IS_PARALLEL()
+    parallel = parallel if parallel is not None else IS_PARALLEL()
     fn = _phase_stft_par if parallel else _phase_stft
     fn(Wx, dWx, Sfs, out, gamma)
     return out
diff --git a/ssqueezepy/utils/stft_utils.py b/ssqueezepy/utils/stft_utils.py
index 208d424..743e68f 100644
--- a/ssqueezepy/utils/stft_utils.py
+++ b/ssqueezepy/utils/stft_utils.py
@@ -52,7 +52,7 @@ def buffer(x, seg_len, n_overlap, modulated=False, parallel=None):
             for _x, _out in zip(x, out):
                 _buffer_gpu(_x,  *args, out=_out)
     else:
-        parallel = parallel or IS_PARALLEL()
+        parallel = parallel if parallel is not None else IS_PARALLEL()
         fn = _buffer_par if parallel else _buffer
 
         if x.ndim == 1:
-- 
2.43.0


From 6b158012f28c3df3b6d6e2909ef733eccc466ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 16/32] fix: plotting wrote defaults into caller's `title` and
 `tight` dicts

---
 ssqueezepy/visuals.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index 885a996..1d05b09 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -823,9 +823,7 @@ def plots(X, Y=None, nrows=None, ncols=None, tight=True, sharex=False,
             if not isinstance(tight, dict):
                 tight = default.copy()
             else:
-                for name in default:
-                    if name not in tight:
-                        tight[name] = default[name]
+                tight = {**default, **tight}
 
         kw['w'] = kw.get('w', .8)
         kw['h'] = kw.get('h', .8)  # default 'tight' enlarges plot
@@ -978,8 +976,7 @@ def _maybe_title(title, ax=None):
     title, kw = (title if isinstance(title, tuple) else
                  (title, {}))
     defaults = gdefaults('visuals._maybe_title', get_all=True, as_dict=True)
-    for name in defaults:
-        kw[name] = kw.get(name, defaults[name])
+    kw = {**defaults, **kw}
 
     if ax:
         ax.set_title(str(title), **kw)
-- 
2.43.0


From f498c25e1f4bc9ee4517239c6894cc675e9193e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 17/32] fix: a failure to set a wavelet's length or recompute
 its properties left it half-changed

---
 ssqueezepy/wavelets.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 1e3d39a..c55fa1f 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -181,9 +181,9 @@ class Wavelet():
     @N.setter
     def N(self, value):
         """Ensure `xi` always matches `N`."""
-        self._N = value
-        self._xi = S.asarray(_xifn(scale=1, N=value,
-                                   dtype=getattr(np, self.dtype)))
+        xi = S.asarray(_xifn(scale=1, N=value, dtype=getattr(np, self.dtype)))
+        # set both only once neither can fail
+        self._N, self._xi = value, xi
 
     @property
     def xi(self):
@@ -350,9 +350,16 @@ class Wavelet():
         """Reset time-frequency properties (`Wavelet.TF_PROPS`), i.e.
         recompute for current `self.N`.
         """
-        for name in self.TF_PROPS:
-            setattr(self, f'_{name}', None)
-            getattr(self, name)  # trigger recomputation
+        orig = {name: getattr(self, f'_{name}', None) for name in self.TF_PROPS}
+        try:
+            for name in self.TF_PROPS:
+                setattr(self, f'_{name}', None)
+                getattr(self, name)  # trigger recomputation
+        except BaseException:
+            # don't leave some properties reset and others not
+            for name, value in orig.items():
+                setattr(self, f'_{name}', value)
+            raise
 
     def viz(self, name='overview', **kw):
         """`Wavelet.VISUALS` for list of supported `name`s."""
-- 
2.43.0


From 4b39deae6f76e56689aa8efaea2f2cb44e6c94dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 18/32] fix: GPU kernel arguments could be freed before the
 kernel's launch

---
 ssqueezepy/algos.py            | 11 +++++------
 ssqueezepy/utils/gpu_utils.py  |  4 +++-
 ssqueezepy/utils/stft_utils.py |  2 +-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 87374d1..a3c5e8c 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -101,12 +101,11 @@ def _process_ssq_params(Wx, w_or_dWx, ssq_freqs, const, logscale, flipud, out,
         # collect tensors & constants
         if 'idx1' in params:
             params['idx1'] = int(params['idx1'])
-        kernel_args = [Wx.data_ptr(), w_or_dWx.data_ptr(), out.data_ptr(),
-                       const_arr.data_ptr(), *list(params.values())]
+        kernel_args = [Wx, w_or_dWx, out, const_arr, *list(params.values())]
         if gamma is not None:
             kernel_args.insert(4, cp.asarray(gamma, dtype=str_dtype))
         if Sfs is not None:
-            kernel_args.insert(2, Sfs.data_ptr())
+            kernel_args.insert(2, Sfs)
 
         ssq_scaletype = (('log_piecewise' if 'idx1' in params else 'log')
                          if logscale else 'lin')
@@ -588,7 +587,7 @@ def _replace_under_abs_gpu(w, Wx, value=0., replacement=0.):
     kernel_kw['f'] = 'f' if kernel_kw['dtype'] == 'float' else ''
 
     Wx = torch.view_as_real(Wx)
-    kernel_args = [w.data_ptr(), Wx.data_ptr(),
+    kernel_args = [w, Wx,
                    cp.asarray(value,       dtype=str_dtype),
                    cp.asarray(replacement, dtype=str_dtype)]
 
@@ -780,7 +779,7 @@ def phase_cwt_gpu(Wx, dWx, gamma):
     Wx  = torch.view_as_real(Wx)
     dWx = torch.view_as_real(dWx)
 
-    kernel_args = [Wx.data_ptr(), dWx.data_ptr(), out.data_ptr(),
+    kernel_args = [Wx, dWx, out,
                    cp.asarray(gamma, dtype=str_dtype)]
     _run_on_gpu(kernel, blockspergrid, threadsperblock,
                 *kernel_args, **kernel_kw)
@@ -855,7 +854,7 @@ def phase_stft_gpu(Wx, dWx, Sfs, gamma):
     Wx  = torch.view_as_real(Wx)
     dWx = torch.view_as_real(dWx)
 
-    kernel_args = [Wx.data_ptr(), dWx.data_ptr(), Sfs.data_ptr(), out.data_ptr(),
+    kernel_args = [Wx, dWx, Sfs, out,
                    cp.asarray(gamma, dtype=str_dtype)]
     _run_on_gpu(kernel, blockspergrid, threadsperblock,
                 *kernel_args, **kernel_kw)
diff --git a/ssqueezepy/utils/gpu_utils.py b/ssqueezepy/utils/gpu_utils.py
index 8169275..d670898 100644
--- a/ssqueezepy/utils/gpu_utils.py
+++ b/ssqueezepy/utils/gpu_utils.py
@@ -10,7 +10,9 @@ Stream = namedtuple('Stream', ['ptr'])
 def _run_on_gpu(kernel, grid, block, *args, **kwargs):
     kernel_name = kernel.split('void ')[1].split('(')[0]
     fn = load_kernel(kernel_name, kernel, **kwargs)
-    fn(grid=grid, block=block, args=args,
+    # `args` keeps tensors (and their memory) alive until the launch
+    ptrs = tuple(a.data_ptr() if isinstance(a, torch.Tensor) else a for a in args)
+    fn(grid=grid, block=block, args=ptrs,
        stream=Stream(ptr=torch.cuda.current_stream().cuda_stream))
 
 
diff --git a/ssqueezepy/utils/stft_utils.py b/ssqueezepy/utils/stft_utils.py
index 743e68f..91c4ccf 100644
--- a/ssqueezepy/utils/stft_utils.py
+++ b/ssqueezepy/utils/stft_utils.py
@@ -132,7 +132,7 @@ def _buffer_gpu(x, seg_len, n_segs, hop_len, s20, s21, modulated=False, out=None
 
     blockspergrid, threadsperblock, kernel_kw, _ = _get_kernel_params(out, dim=1)
     kernel_kw.update(dict(N=len(x), L=len(out), W=out.shape[1]))
-    kernel_args = [x.data_ptr(), out.data_ptr(), bool(modulated), hop_len,
+    kernel_args = [x, out, bool(modulated), hop_len,
                    seg_len, s20, s21]
     _run_on_gpu(kernel, blockspergrid, threadsperblock, *kernel_args, **kernel_kw)
     return out
-- 
2.43.0


From c9f132e68d30b865cb461516e2db619b64ad1506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 19/32] fix: GPU kernels read non-contiguous tensors as if
 contiguous

---
 ssqueezepy/algos.py            | 12 +++++++-----
 ssqueezepy/utils/stft_utils.py |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index a3c5e8c..f633086 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -59,6 +59,8 @@ def _process_ssq_params(Wx, w_or_dWx, ssq_freqs, const, logscale, flipud, out,
     elif complex_out and gpu:
         out = torch.view_as_real(out)
     if gpu:
+        # kernels assume contiguous memory
+        Wx, w_or_dWx = Wx.contiguous(), w_or_dWx.contiguous()
         Wx = torch.view_as_real(Wx)
         if 'complex' in str(w_or_dWx.dtype):
             w_or_dWx = torch.view_as_real(w_or_dWx)
@@ -586,7 +588,7 @@ def _replace_under_abs_gpu(w, Wx, value=0., replacement=0.):
      ) = _get_kernel_params(Wx, dim=2)
     kernel_kw['f'] = 'f' if kernel_kw['dtype'] == 'float' else ''
 
-    Wx = torch.view_as_real(Wx)
+    Wx = torch.view_as_real(Wx.contiguous())
     kernel_args = [w, Wx,
                    cp.asarray(value,       dtype=str_dtype),
                    cp.asarray(replacement, dtype=str_dtype)]
@@ -776,8 +778,8 @@ def phase_cwt_gpu(Wx, dWx, gamma):
     kernel_kw['f'] = 'f' if kernel_kw['dtype'] == 'float' else ''
 
     out = torch.zeros(Wx.shape, device=Wx.device, dtype=getattr(torch, str_dtype))
-    Wx  = torch.view_as_real(Wx)
-    dWx = torch.view_as_real(dWx)
+    Wx  = torch.view_as_real(Wx.contiguous())
+    dWx = torch.view_as_real(dWx.contiguous())
 
     kernel_args = [Wx, dWx, out,
                    cp.asarray(gamma, dtype=str_dtype)]
@@ -851,8 +853,8 @@ def phase_stft_gpu(Wx, dWx, Sfs, gamma):
     kernel_kw['f'] = 'f' if kernel_kw['dtype'] == 'float' else ''
 
     out = torch.zeros(Wx.shape, device=Wx.device, dtype=getattr(torch, str_dtype))
-    Wx  = torch.view_as_real(Wx)
-    dWx = torch.view_as_real(dWx)
+    Wx  = torch.view_as_real(Wx.contiguous())
+    dWx = torch.view_as_real(dWx.contiguous())
 
     kernel_args = [Wx, dWx, Sfs, out,
                    cp.asarray(gamma, dtype=str_dtype)]
diff --git a/ssqueezepy/utils/stft_utils.py b/ssqueezepy/utils/stft_utils.py
index 91c4ccf..98dba3d 100644
--- a/ssqueezepy/utils/stft_utils.py
+++ b/ssqueezepy/utils/stft_utils.py
@@ -132,7 +132,7 @@ def _buffer_gpu(x, seg_len, n_segs, hop_len, s20, s21, modulated=False, out=None
 
     blockspergrid, threadsperblock, kernel_kw, _ = _get_kernel_params(out, dim=1)
     kernel_kw.update(dict(N=len(x), L=len(out), W=out.shape[1]))
-    kernel_args = [x, out, bool(modulated), hop_len,
+    kernel_args = [x.contiguous(), out, bool(modulated), hop_len,
                    seg_len, s20, s21]
     _run_on_gpu(kernel, blockspergrid, threadsperblock, *kernel_args, **kernel_kw)
     return out
-- 
2.43.0


From ff222b2201325c06ca42deea4fe8ba24e9be25d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 20/32] fix: GPU synchrosqueezing wrote out of bounds upon NaN
 or overflowing frequencies

---
 ssqueezepy/algos.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index f633086..7910f23 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -1054,6 +1054,8 @@ _kernel_codes = dict(
             C = Wx[i][j][0];
             D = Wx[i][j][1];
             w_ij = abs((B*C - A*D) / ((C*C + D*D) * 6.283185307179586));
+            if (!isfinite(w_ij))  // overflow; can't index `out`
+                continue;
 
             wl = log2${f}(w_ij);
             if (wl > vlmin1){
@@ -1097,6 +1099,8 @@ _kernel_codes = dict(
             C = Wx[i][j][0];
             D = Wx[i][j][1];
             w_ij = abs((B*C - A*D) / ((C*C + D*D) * 6.283185307179586));
+            if (!isfinite(w_ij))  // overflow; can't index `out`
+                continue;
 
             k = (int)round(((double)log2${f}(w_ij) - vlmin) / dvl);
             if (k >= ${M})
@@ -1135,6 +1139,8 @@ _kernel_codes = dict(
             C = Wx[i][j][0];
             D = Wx[i][j][1];
             w_ij = abs((B*C - A*D) / ((C*C + D*D) * 6.283185307179586));
+            if (!isfinite(w_ij))  // overflow; can't index `out`
+                continue;
 
             k = (int)round(((double)w_ij - vmin) / dv);
             if (k >= ${M})
@@ -1174,6 +1180,8 @@ _kernel_codes = dict(
             C = Wx[i][j][0];
             D = Wx[i][j][1];
             w_ij = abs(Sfs[i] - (B*C - A*D) / ((C*C + D*D) * 6.283185307179586));
+            if (!isfinite(w_ij))  // overflow; can't index `out`
+                continue;
 
             k = (int)round(((double)w_ij - vmin) / dv);
             if (k >= ${M})
@@ -1207,7 +1215,7 @@ _kernel_codes = dict(
       int k;
       double wl;
       for (int i=0; i < ${M}; ++i){
-        if (!isinf(w[i][j])){
+        if (isfinite(w[i][j])){
           wl = (double)log2${f}(w[i][j]);
 
           if (wl > vlmin1){
@@ -1243,7 +1251,7 @@ _kernel_codes = dict(
 
       int k;
       for (int i=0; i < ${M}; ++i){
-        if (!isinf(w[i][j])){
+        if (isfinite(w[i][j])){
           k = (int)round(((double)log2${f}(w[i][j]) - vlmin) / dvl);
 
           if (k >= ${M})
@@ -1274,7 +1282,7 @@ _kernel_codes = dict(
 
       int k;
       for (int i=0; i < ${M}; ++i){
-        if (!isinf(w[i][j])){
+        if (isfinite(w[i][j])){
           k = (int)round(((double)(w[i][j]) - vmin) / dv);
 
           if (k >= ${M})
-- 
2.43.0


From c6dd3f83969d544c809f57ae11c2c2e5a8d93b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 21/32] fix: wavelet parameters were rounded to single
 precision on GPU

---
 ssqueezepy/wavelets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index c55fa1f..4cf5a64 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -509,7 +509,8 @@ def _process_params_dtype(*params, dtype, auto_gpu=True):
         dtype = S.asarray(params[0]).dtype
     if auto_gpu:
         dtype = Wavelet._process_dtype(dtype, as_str=True)
-        params = [S.astype(S.asarray(p), dtype) for p in params]
+        # cast at once, as `torch` would make Python floats float32
+        params = [S.asarray(p, dtype) for p in params]
     else:
         dtype = Wavelet._process_dtype(dtype, as_str=True)
         params = [np.asarray(p).astype(dtype) for p in params]
-- 
2.43.0


From b83275df4c5f31d5cf0a4335b18417f88ade1730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 22/32] fix: complex wavelets were made real if their imaginary
 part summed to negative

---
 ssqueezepy/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 4cf5a64..b701ea2 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -79,7 +79,7 @@ class Wavelet():
             psih = self._halve_nyquist(psih)
         if (S.is_dtype(psih, ('complex64', 'complex128')) and
                 (imag_th is not None) and
-                (psih.imag.sum() / psih.real.sum() < imag_th)):
+                (abs(psih.imag).sum() < imag_th * abs(psih.real).sum())):
             psih = psih.real
         return psih
 
-- 
2.43.0


From 4c4c5d2345b1820ce04f9a11dd11b57d7aa89a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 23/32] fix: squeezing other than 'sum' derived frequencies
 from the squeezed transform

---
 ssqueezepy/ssqueezing.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 1dd7ce9..5c18fe8 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -194,13 +194,22 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         ssq_scaletype, _ = infer_scaletype(ssq_freqs)
 
     # transform `Wx` if needed
+    if squeezing != 'sum' and w is None:
+        # must derive from untransformed `Wx`
+        w = _phase_transform(Wx, dWx, Sfs, gamma, transform)
     if isinstance(squeezing, FunctionType):
         Wx = squeezing(Wx)
     elif squeezing == 'lebesgue':  # from reference [3]
-        Wx = S.ones(Wx.shape, dtype=Wx.dtype) / len(Wx)
+        Wx = S.ones(Wx.shape, dtype=Wx.dtype) / Wx.shape[-2]
     elif squeezing == 'abs':
         Wx = Q.abs(Wx)
 
+    # GPU kernels take complex inputs only
+    gpu_real = S.is_tensor(Wx) and not S.is_dtype(Wx, 'complex')
+    if gpu_real:
+        Wx = S.astype(Wx, 'complex64' if S.is_dtype(Wx, 'float32') else
+                      'complex128')
+
     # synchrosqueeze
     Tx = S.zeros(Wx.shape, dtype=Wx.dtype)
     args = (nv, ssq_freqs, scales, transform, ssq_scaletype,
@@ -212,6 +221,8 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
                   for g in (w, dWx)]
         for _Tx, _w, _Wx, _dWx in zip(Tx, w, Wx, dWx):
             _ssqueeze(_Tx, _w, _Wx, _dWx, *args)
+    if gpu_real:
+        Tx = Tx.real.contiguous()
 
     # `scales` go high -> low
     if (transform == 'cwt' and not flipud) or flipud:
@@ -225,6 +236,19 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
 
 
 #### `ssqueeze` utils ########################################################
+def _phase_transform(Wx, dWx, Sfs, gamma, transform):
+    from ._ssq_cwt import phase_cwt
+    from ._ssq_stft import phase_stft
+
+    if Wx.ndim == 3:
+        w = [_phase_transform(_Wx, _dWx, Sfs, gamma, transform)
+             for _Wx, _dWx in zip(Wx, dWx)]
+        return S.vstack(w) if S.is_tensor(Wx) else np.stack(w)
+    if transform == 'cwt':
+        return phase_cwt(Wx, dWx, gamma=gamma)
+    return phase_stft(Wx, dWx, Sfs, gamma=gamma)
+
+
 def _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded):
     if isinstance(maprange, tuple):
         fm, fM = maprange
-- 
2.43.0


From e14288ab2ceb22aa14db6db399a44fc9993bf316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 24/32] fix: batched input with higher-order GMWs

---
 ssqueezepy/_cwt.py     | 2 +-
 ssqueezepy/_ssq_cwt.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index c932482..f85e3f4 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -573,7 +573,7 @@ def cwt_higher_order(x, wavelet='gmw', order=1, average=None, astensor=True,
         scales = kw.get('scales', 'log-piecewise')
         if isinstance(scales, str):
             wav = Wavelet(('gmw', dict(order=0, **wavopts)))
-            scales = process_scales(scales, len(x), wavelet=wav,
+            scales = process_scales(scales, x.shape[-1], wavelet=wav,
                                     nv=kw.get('nv', 32))
             scales = S.asarray(scales, wav.dtype)
         kw['scales'] = scales
diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 43cb021..e2db4f4 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -236,7 +236,7 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
 
         Wx, scales = cwt(x, order=order, average=average, **kw)
         dWx = trigdiff(Wx, fs, rpadded=True, N=N, n1=n1)
-        Wx = Wx[:, n1:n1 + N]
+        Wx = Wx[..., n1:n1 + N]
         if S.is_tensor(Wx):
             Wx = Wx.contiguous()
 
-- 
2.43.0


From 3d3f07d7dd7723a7d27b7f848b8c1d1e460b46aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 25/32] fix: icwt added x_mean twice with piecewise scales, and
 failed upon one per input

---
 ssqueezepy/_cwt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index f85e3f4..d060b69 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -419,11 +419,11 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
     # `nv` must be left unspecified so it's inferred automatically from `scales`
     # in `process_scales` for each piecewise case
     if scaletype == 'log-piecewise':
-        kw = dict(wavelet=wavelet, one_int=one_int, x_len=x_len, x_mean=x_mean,
+        kw = dict(wavelet=wavelet, one_int=one_int, x_len=x_len,
                   padtype=padtype, rpadded=rpadded, l1_norm=l1_norm)
 
         idx = logscale_transition_idx(scales)
-        x  = icwt(Wx[..., :idx, :], scales=scales[:idx], **kw)
+        x  = icwt(Wx[..., :idx, :], scales=scales[:idx], x_mean=x_mean, **kw)
         x += icwt(Wx[..., idx:, :], scales=scales[idx:], **kw)
         return x
     ##########################################################################
@@ -448,6 +448,8 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
         # unclear why the `pi/4` here but it improves inversion
         x *= (2 / Cpsi) * np.pi / 4
 
+    if x.ndim == 2 and getattr(x_mean, 'ndim', 0) == 1:
+        x_mean = x_mean.reshape(-1, 1)  # one per input
     x += x_mean  # CWT doesn't capture mean (infinite scale)
     return x
 
-- 
2.43.0


From 0208beb36d14dd4a2e3b110e758fefbcf2df5323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:48 +0000
Subject: [PATCH 26/32] fix: unmodulated stft's derivative ignored the sampling
 rate

---
 ssqueezepy/_stft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index 63728a0..c536144 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -132,7 +132,9 @@ def stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=None,
         if modulated:
             window = ifftshift(window, astensor=True)
             if derivative:
-                diff_window = ifftshift(diff_window, astensor=True) * fs
+                diff_window = ifftshift(diff_window, astensor=True)
+        if derivative:
+            diff_window = diff_window * fs
 
         reshape = (-1, 1) if xp.ndim == 1 else (1, -1, 1)
         Sx *= window.reshape(*reshape)
-- 
2.43.0


From f576a424b2795fefc7a12504f9c6824f9d410d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 27/32] fix: ridges near the first row weren't removed before
 seeking the next

---
 ssqueezepy/ridge_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index ad69f98..40b8112 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -140,7 +140,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
 
         for time_idx in range(n_timeshifts):
             ridx = ridge_idxs[time_idx, i]
-            energy[int(ridx - bw):int(ridx + bw), time_idx] = 0
+            energy[max(int(ridx - bw), 0):int(ridx + bw), time_idx] = 0
 
     return ((ridge_idxs, ridge_f, ridge_e) if get_params else
             ridge_idxs)
-- 
2.43.0


From 9b5b146309177a97089c30613a519cda058acd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 28/32] fix: ssq_cwt with difftype='numeric' returned
 transforms with padding

---
 ssqueezepy/_ssq_cwt.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index e2db4f4..ba66bab 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -202,7 +202,7 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
         dt, fs, t = _process_fs_and_t(fs, t, N)
         return N, dt, fs, difforder, nv
 
-    def _phase_transform(Wx, dWx, N, dt, gamma, difftype, difforder):
+    def _phase_transform(Wx, dWx, N, dt, gamma, difftype, difforder, rpadded):
         if difftype == 'trig':
             # calculate instantaneous frequency directly from the
             # frequency-domain derivative
@@ -214,8 +214,9 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
         elif difftype == 'numeric':
             # !!! tested to be very inaccurate for small scales
             # calculate derivative numerically
-            _, n1, _ = p2up(N)
-            Wx = Wx[:, (n1 - 4):(n1 + N + 4)]
+            if rpadded:
+                _, n1, _ = p2up(N)
+                Wx = Wx[:, (n1 - 4):(n1 + N + 4)]
             w = phase_cwt_num(Wx, dt, difforder, gamma)
         return Wx, w
 
@@ -224,6 +225,7 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
                                              wavelet, get_w)
     wavelet = Wavelet._init_if_not_isinstance(wavelet, N=N)
 
+    rpadded = False
     # CWT with higher-order GMWs
     if isinstance(order, (tuple, list, range)) or order > 0:
         # keep padding for `trigdiff`
@@ -246,7 +248,7 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
     if order == 0:
         # l1_norm=True to spare a multiplication; for SSQ_CWT L1 & L2 are exactly
         # same anyway since we're inverting CWT over time-frequency plane
-        rpadded = (difftype == 'numeric')
+        rpadded = (difftype == 'numeric' and padtype is not None)
         Wx, scales, dWx = cwt(x, wavelet, scales=scales, fs=fs, nv=nv,
                               l1_norm=True, derivative=True, padtype=padtype,
                               rpadded=rpadded, vectorized=vectorized,
@@ -268,7 +270,8 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
 
     # compute `w` if `get_w` and free `dWx` from memory if `not get_dWx`
     if get_w:
-        _Wx, w = _phase_transform(_Wx, dWx, N, dt, gamma, difftype, difforder)
+        _Wx, w = _phase_transform(_Wx, dWx, N, dt, gamma, difftype, difforder,
+                                  rpadded)
         _dWx = None  # don't use in `ssqueeze`
         if not get_dWx:
             dWx = None
@@ -289,8 +292,10 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
                              flipud=flipud, dWx=_dWx, transform='cwt')
 
     # postprocessing & return
-    if difftype == 'numeric':
-        Wx = Wx[:, 4:-4]
+    if rpadded:
+        _, n1, _ = p2up(N)
+        Wx = Wx[:, n1:n1 + N]  # `_phase_transform` trims only `_Wx`
+        dWx = dWx[:, n1:n1 + N] if dWx is not None else None
         Tx = Tx[:, 4:-4]
         w  = w[:,  4:-4] if w is not None else None
 
-- 
2.43.0


From c16c0fe3d4f276387ce5010ddba2507fe3081601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 29/32] fix: ssq_cwt with order > 0 and padtype=None cut the
 transform

---
 ssqueezepy/_ssq_cwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index ba66bab..5bfaf4f 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -233,7 +233,7 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
                   l1_norm=True, derivative=False, padtype=padtype, rpadded=True,
                   vectorized=vectorized, astensor=True,
                   cache_wavelet=cache_wavelet, nan_checks=nan_checks)
-        _, n1, _ = p2up(N)
+        n1 = p2up(N)[1] if padtype is not None else 0
         average = isinstance(order, (tuple, list, range))
 
         Wx, scales = cwt(x, order=order, average=average, **kw)
-- 
2.43.0


From 68f9aff243dc09e9ce42f1f1001ec8eec634f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 30/32] fix: trigdiff without N returned part of the padding

---
 ssqueezepy/utils/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index ea68fe6..6b936fe 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -212,6 +212,7 @@ def trigdiff(A, fs=1., padtype=None, rpadded=None, N=None, n1=None, window=None,
     rpadded, padtype = _process_args(A, rpadded, padtype, N, transform, window)
 
     if padtype is not None:
+        N = N or A.shape[-1]
         A, _, n1, *_ = padsignal(A, padtype, get_params=True)
 
     if transform == 'cwt':
-- 
2.43.0


From c74a9a5d6d11f58b5f8d0cf779cf59f7103c1896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 31/32] fix: icwt with rpadded=True kept the padding, and
 failed with one_int=False

---
 ssqueezepy/_cwt.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index d060b69..b75adb2 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -2,7 +2,7 @@
 import numpy as np
 from .utils import fft, ifft, ifftshift, FFT_GLOBAL
 from .utils import WARN, adm_cwt, adm_ssq, _process_fs_and_t, is_array_or_tensor
-from .utils import padsignal, process_scales, logscale_transition_idx
+from .utils import padsignal, p2up, process_scales, logscale_transition_idx
 from .utils import backend as S
 from .utils.backend import Q
 from .algos import replace_at_inf_or_nan
@@ -431,6 +431,9 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
     #### Invert ##############################################################
     if one_int:
         x = _icwt_1int(Wx, scales, scaletype, l1_norm)
+        if rpadded and x_len != n:
+            _, n1, _ = p2up(x_len)
+            x = x[..., n1:n1 + x_len]  # keep the unpadded part
     else:
         if Wx.ndim == 3:
             raise NotImplementedError("batched `Wx` requires `one_int=True`.")
@@ -460,6 +463,9 @@ def _icwt_2int(Wx, scales, scaletype, l1_norm, wavelet, x_len,
     # add CWT padding if it doesn't exist
     if not rpadded:
         Wx, n_up, n1, _ = padsignal(Wx, padtype=padtype, get_params=True)
+    else:
+        n_up = Wx.shape[-1]
+        n1 = p2up(x_len)[1] if x_len != n_up else 0
 
     # see help(cwt) on `norm` and `pn`
     norm = _icwt_norm(scaletype, l1_norm)
-- 
2.43.0


From e2db73e0231d34e4d5f72d5bd4fee5c5d7d57325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:20 +0000
Subject: [PATCH 32/32] fix: trigdiff returned double precision for single if
 fs was a NumPy scalar

As it is if derived from `t`: ssq_cwt with order > 0 then mixed precisions.
---
 ssqueezepy/utils/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index 6b936fe..946eb26 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -219,7 +219,8 @@ def trigdiff(A, fs=1., padtype=None, rpadded=None, N=None, n1=None, window=None,
         xi = S.asarray(_xifn(1, A.shape[-1]), A.dtype)
 
         A_freqdom = fft(A, axis=-1, astensor=True)
-        A_diff = ifft(A_freqdom * 1j * xi * fs, axis=-1, astensor=True)
+        # `float`, as NumPy scalars (e.g. from `t`) would raise the precision
+        A_diff = ifft(A_freqdom * 1j * xi * float(fs), axis=-1, astensor=True)
     else:
         # this requires us to first fully invert STFT(x), then `buffer(x)`,
         # then compute `diff_window`, which isn't hard to implement;
-- 
2.43.0

