From 9ea6c5710e6bf2dcd0f87ae84451dac75cbf7bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 01/41] fix: zero-delay amplitudes of the stationary pileup
 optimum filter

At zero relative delay the two pulses coincide and share the amplitude, so
each should get half of the optimum amplitude; the value was divided by the
template norm once too often.
---
 qetpy/core/_fitting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 4c9b45e..edf2781 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -827,8 +827,8 @@ class OptimumFilter(object):
         ) / denom[1:]
 
         # calculate the zero freq bins to avoid divide by zero
-        a1s[0] = self.signalfilt_td[0] / (2 * self.norm)
-        a2s[0] = self.signalfilt_td[0] / (2 * self.norm)
+        a1s[0] = self.signalfilt_td[0] / 2
+        a2s[0] = self.signalfilt_td[0] / 2
 
         # signal part of chi^2
         if self.chi0 is None:
@@ -1425,8 +1425,8 @@ def ofamp_pileup_stationary(signal, template, inputpsd, fs, coupling='AC',
     ) / denom[1:]
 
     # calculate the zero freq bins to avoid divide by zero
-    a1s[0] = signalfilt_td[0] / (2 * norm**2)
-    a2s[0] = signalfilt_td[0] / (2 * norm**2)
+    a1s[0] = signalfilt_td[0] / (2 * norm)
+    a2s[0] = signalfilt_td[0] / (2 * norm)
 
     # signal part of chi^2
     chi0 = np.real(np.dot(v.conjugate() / psd, v)) * df
-- 
2.43.0


From 3067ebdb9d85c299dbfd0214b24f4b7eb7e0cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 02/41] fix: interpolate_t0 when the best delay is the last bin

The delays are periodic; vals[bestind + 1] raised an IndexError.
---
 qetpy/core/_fitting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index edf2781..e05f259 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -294,8 +294,11 @@ class OptimumFilter(object):
 
         sf = 1 / (2 * delta**2)
 
-        a = sf * (vals[bestind + 1] - 2 * vals[bestind] + vals[bestind - 1])
-        b = sf * delta * (vals[bestind + 1] - vals[bestind - 1])
+        # the delays are periodic, so the neighbor of the last bin is the first
+        nextind = (bestind + 1) % len(vals)
+
+        a = sf * (vals[nextind] - 2 * vals[bestind] + vals[bestind - 1])
+        b = sf * delta * (vals[nextind] - vals[bestind - 1])
         c = sf * 2 * delta**2 * vals[bestind]
 
         if t_interp is None:
-- 
2.43.0


From d47e3e781e3a5603094eac3484660151568dac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 03/41] fix: pileup chi^2 when t1 is not exactly reproduced by
 int(t1 * fs)

int() truncated t1 * fs, which is off by one bin for many on-grid times
(e.g. 21 / 625e3 * 625e3 < 21) and for interpolated times; evaluate the
filtered signal at t1 itself, as is already done for the template.
---
 qetpy/core/_fitting.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index e05f259..6672d48 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -690,16 +690,16 @@ class OptimumFilter(object):
 
         a2s = self.signalfilt_td - a1 * templatefilt_td / self.norm
 
-        if t1<0:
-            t1ind = int(t1 * self.fs + self.nbins)
-        else:
-            t1ind = int(t1 * self.fs)
+        # filtered signal at the delay of the "main" pulse
+        signalfilt_t1 = np.real(
+            np.sum(self.signalfilt * np.exp(2.0j * np.pi * self.freqs * t1))
+        ) * self.df
 
         # do a1 part of chi2
         chit = (
             a1**2 * self.norm
         ) - (
-            2 * a1 * self.signalfilt_td[t1ind] * self.norm
+            2 * a1 * signalfilt_t1 * self.norm
         )
 
         # do a1, a2 combined part of chi2
@@ -1297,14 +1297,14 @@ def ofamp_pileup(signal, template, inputpsd, fs, a1=None, t1=None,
     # first fitting part of chi2
     chit = (a1**2 + a2s**2) * norm + 2 * a1 * a2s * templatefilt_td
 
-    if t1<0:
-        t1ind = int(t1 * fs + nbins)
-    else:
-        t1ind = int(t1 * fs)
+    # filtered signal at the delay of the "main" pulse
+    signalfilt_t1 = np.real(
+        np.sum(signalfilt * np.exp(1.0j * omega * t1))
+    ) * df
 
     # last part of chi2
     chil = (
-        2 * a1 * signalfilt_td[t1ind] * norm
+        2 * a1 * signalfilt_t1 * norm
     ) + (
         2 * a2s * signalfilt_td * norm
     )
-- 
2.43.0


From 869dbf7ac16473860934ac3a8d0765eec51a3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 04/41] fix: loadfromdidv noise types 'normal' and non-interned
 strings

---
 qetpy/sim/_sim.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index d7a3a14..78ff35a 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -97,7 +97,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
 
     """
 
-    if noisetype is "superconducting":
+    if noisetype == "superconducting":
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
@@ -112,8 +112,9 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "normal":
-        raise ValueError('Please specify rnormal.')
+    elif noisetype == "normal":
+        if rnormal is None:
+            raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
@@ -128,7 +129,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "transition":
+    elif noisetype == "transition":
         fitresult = DIDVobj.fitresult(2)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From d28fe6fa2348d52d53bf96f3044b9b86dcc9216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 05/41] fix: flat regions of dI/dV traces when their lengths
 differ by rounding

---
 qetpy/core/didv/_base_didv.py | 4 ++--
 qetpy/core/didv/_didv.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 792bf49..348a798 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -986,8 +986,8 @@ class _BaseDIDV(object):
             flatindhigh = int(
                 (float(i) + 0.48) * period_unscaled
             ) + int(self._dt0 * self._fs)
-            flatindstemp.append(range(flatindlow, flatindhigh))
-        flatinds = np.array(flatindstemp).flatten()
+            flatindstemp.extend(range(flatindlow, flatindhigh))
+        flatinds = np.array(flatindstemp, dtype=int)
 
         self._flatinds = flatinds[np.logical_and(
             flatinds > 0, flatinds < nbins,
diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index e54e886..4ba3a96 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -108,8 +108,8 @@ def didvinitfromdata(tmean, didvmean, didvstd, offset, offset_err, fs, sgfreq,
         flatindhigh = int(
             (float(i) + 0.48) * didvobj._fs / didvobj._sgfreq
         ) + int(didvobj._dt0 * didvobj._fs)
-        flatindstemp.append(range(flatindlow, flatindhigh))
-    flatinds = np.array(flatindstemp).flatten()
+        flatindstemp.extend(range(flatindlow, flatindhigh))
+    flatinds = np.array(flatindstemp, dtype=int)
 
     didvobj._flatinds = flatinds[np.logical_and(
         flatinds > 0, flatinds < nbins,
-- 
2.43.0


From 24c4ebbac66a004cf9b4560343381ed842e26124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 06/41] fix: dI/dV fit with a zero initial time offset

---
 qetpy/core/didv/_didv.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index 4ba3a96..cbb15e2 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -292,6 +292,11 @@ class DIDV(_BaseDIDV, _PlotDIDV):
             z1d[1:z1d.size:2] = diff.imag*weights.imag
             return z1d
 
+        # the scale of each parameter must be nonzero, so use the typical
+        # scale of a time constant if a guess is zero (e.g. the time offset)
+        x_scale = np.abs(p0)
+        x_scale[x_scale == 0] = 1.0e-6
+
         if isloopgainsub1 is None:
             # res1 assumes loop gain > 1, where B<0 and tauI<0
             res1 = least_squares(
@@ -301,7 +306,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
             # res2 assumes loop gain < 1, where B>0 and tauI>0
             res2 = least_squares(
@@ -311,7 +316,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
             # check which loop gain cases gave the better fit
             if (res1['cost'] < res2['cost']):
@@ -327,7 +332,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
         else:
             #assume loop gain > 1, where B<0 and tauI<0
@@ -338,7 +343,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
 
         popt = res['x']
-- 
2.43.0


From 9d4397570bdaa11a2fb0d265163d29b3edefdbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 07/41] fix: half period of add180phase was added more than
 once to the dI/dV time offset

---
 qetpy/core/didv/_base_didv.py   | 10 +++++-----
 qetpy/core/didv/_didv.py        |  4 ----
 qetpy/core/didv/_didv_priors.py |  3 ++-
 3 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 348a798..71bb30c 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -476,6 +476,11 @@ class _BaseDIDV(object):
         self._add180phase = add180phase
         self._dt0 = dt0
 
+        # add half a period of the square wave frequency to the
+        # initial offset if add180phase is True
+        if self._add180phase:
+            self._dt0 = self._dt0 + 1/(2*self._sgfreq)
+
         self._freq = None
         self._time = None
         self._ntraces = None
@@ -948,11 +953,6 @@ class _BaseDIDV(object):
         nbinsraw = len(self._rawtraces[0])
         bins = np.arange(0, nbinsraw)
 
-        # add half a period of the square wave frequency to the
-        # initial offset if add180phase is True
-        if (self._add180phase):
-            self._dt0 = self._dt0 + 1/(2*self._sgfreq)
-
         self._time = bins*dt - self._dt0
 
         # figure out how many didv periods are in the trace, including
diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index cbb15e2..0d1d8aa 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -88,10 +88,6 @@ def didvinitfromdata(tmean, didvmean, didvstd, offset, offset_err, fs, sgfreq,
     didvobj._offset = offset
     didvobj._offset_err = offset_err
     didvobj._tmean = tmean
-    didvobj._dt0 = dt0
-
-    if didvobj._add180phase:
-        didvobj._dt0 = didvobj._dt0 + 1 / (2 * didvobj._sgfreq)
 
     didvobj._time = np.arange(len(tmean)) / fs - didvobj._dt0
     didvobj._freq = np.fft.fftfreq(len(tmean), d=1.0 / fs)
diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index 15dead3..ec1a0b8 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -255,7 +255,8 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
             self._sgfreq,
             self._sgamp,
             self._rsh,
-            add180phase=self._add180phase,
+            # `self._dt0` already contains the half period
+            add180phase=False,
             dt0=self._dt0,
             rp=priors[1] if priors[1] != 0 else 0.01,
             r0=priors[2] if priors[2] != 0 else 0.1,
-- 
2.43.0


From 82e3f7ee0f3ab63bc5e5fb145f815be3bb9775ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 08/41] fix: dI/dV traces of a whole number of periods lost
 their last period

floor(n*(1/fs)/(1/sgfreq)) rounds below the exact ratio for common sample
rates (e.g. 625 kHz and 10 Hz); use the same expression as didvinitfromdata.
---
 qetpy/core/didv/_base_didv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 71bb30c..57e3909 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -957,8 +957,7 @@ class _BaseDIDV(object):
 
         # figure out how many didv periods are in the trace, including
         # the time offset
-        period = 1.0/self._sgfreq
-        nperiods = np.floor(nbinsraw*dt/period)
+        nperiods = np.floor(nbinsraw*self._sgfreq/self._fs)
 
         # find which indices to keep in order to have an
         # integer number of periods
-- 
2.43.0


From fdd1b5a30086b8cd5e9e520f4e2c0e737f60162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:30 +0000
Subject: [PATCH 09/41] fix: gen_noise overwrote the DC bin of the PSD it was
 given

---
 qetpy/core/_noise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 19d59ef..638a992 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -148,6 +148,8 @@ def gen_noise(psd, fs=1.0, ntraces=1):
     """
     
     if np.isinf(psd[0]):
+        # do not modify the inputted PSD
+        psd = np.array(psd)
         psd[0] = 0
     
     traces = np.zeros((ntraces, len(psd)))
-- 
2.43.0


From d290910ea004411daa41a1d1ca66a321220085e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:13 +0000
Subject: [PATCH 10/41] fix: one-sided PSD of Noise doubled the DC and Nyquist
 bins

---
 qetpy/core/_noise.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 638a992..5db9f2d 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -310,6 +310,12 @@ class Noise(object):
         psd = np.mean(psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs) 
         real_psd = np.mean(real_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)
         imag_psd = np.mean(imag_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)  
+        # the DC bin, and the Nyquist bin of an even number of samples, have no
+        # negative frequency to fold over
+        for one_sided in (psd, real_psd, imag_psd):
+            one_sided[:, 0] /= 2.0
+            if traceshape[2] % 2 == 0:
+                one_sided[:, -1] /= 2.0
       
         self.psd = psd
         self.real_psd = real_psd
-- 
2.43.0


From 0f6f3e1c0a19c69dd3ea955cf496f5d528ef01bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 11/41] fix: calc_offset dropped a full period of the square
 wave

1/sgfreq*fs rounds above or below the exact period for common settings (e.g.
100 kHz and 75 Hz), so that a full period or a bin was left out.
---
 qetpy/utils/_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 627b0e4..4da230f 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -286,10 +286,8 @@ def calc_offset(x, fs=1.0, sgfreq=100.0, is_didv=False):
     """
 
     if is_didv:
-        period =  1.0 / sgfreq
-        period_bins = period * fs
-        n_periods = int(x.shape[-1] / period_bins)
-        x = x[..., :int(n_periods * period_bins)]
+        n_periods = int(x.shape[-1] * sgfreq / fs)
+        x = x[..., :int(n_periods * fs / sgfreq)]
 
     offset = np.mean(np.mean(x, axis=-1), axis=0)
     std = np.std(np.mean(x, axis=-1), axis=0) / np.sqrt(x.shape[0])
-- 
2.43.0


From 8a624cb525e84fcf641d24f6925ad6183af21ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:22 +0000
Subject: [PATCH 12/41] fix: resample_factors only covered the smallest prime
 of the denominator

fs*up/down/sgfreq was no integer when the reduced denominator of fs/sgfreq has
several prime factors (e.g. 625 kHz and 48 Hz).
---
 qetpy/utils/_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 4da230f..854fd79 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -110,11 +110,13 @@ def resample_factors(fs, sgfreq):
         return 1, 1
 
     down = np.multiply.reduce(numer)
-    up = round(down / min(denom)) * min(denom)
+    # `up` has to contain the whole denominator of `fs`/`sgfreq`
+    factor = np.multiply.reduce([key**-rfacs[key] for key in denom])
+    up = round(down / factor) * factor
 
     # round up if `sgfreq` is prime (otherwise would return 0)
     if up==0:
-        up = np.ceil(down / min(denom)).astype(int) * min(denom)
+        up = np.ceil(down / factor).astype(int) * factor
 
     return int(up), int(down)
 
-- 
2.43.0


From f7b48401f20fa3201567da4e5bec79dad853905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 13/41] fix: shift by a fraction of a bin truncated integer
 arrays

---
 qetpy/utils/_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 854fd79..353eacf 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -62,7 +62,11 @@ def shift(arr, num, fill_value=0):
             result[:] = arr
     else:
         result = ndimage.shift(
-            arr, num, order=1, mode='constant', cval=fill_value,
+            np.multiply(arr, 1.0),
+            num,
+            order=1,
+            mode='constant',
+            cval=fill_value,
         )
 
     return result
-- 
2.43.0


From cc549a84b20822a08a2a89ccbe054252d7495597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 14/41] fix: energy_absorbed joined the baselines along the
 wrong axis

np.hstack joins along the second axis, which is not the last one for traces of
several channels.
---
 qetpy/utils/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 353eacf..e871d01 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -611,7 +611,9 @@ def energy_absorbed(trace, ioffset, qetbias, rload, rsh, fs=None,
         else:
             raise ValueError('Must provide indbasepre or baseline')
         if indbasepost is not None:
-            base_traces = np.hstack((base_traces, trace[..., indbasepost:]))
+            base_traces = np.concatenate(
+                (base_traces, trace[..., indbasepost:]), axis=-1,
+            )
         baseline = np.mean(base_traces, axis=-1, keepdims=True)
 
     baseline_p0 = powertrace_simple(baseline, ioffset, qetbias, rload, rsh)
-- 
2.43.0


From 81360089a01d56691113cfa2fc541512dac3585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 15/41] fix: align_traces ignored its cut_off_freq and fs
 arguments

---
 qetpy/utils/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index e871d01..e09493f 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -426,7 +426,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
 
     # Filter and truncate all traces to speed up.
     traces_filt = lowpassfilter(
-        traces[:, :n_cut], cut_off_freq=5000, fs=625e3,
+        traces[:, :n_cut], cut_off_freq=cut_off_freq, fs=fs,
     )
     traces_temp = traces_filt - np.mean(traces_filt, axis=-1, keepdims=True)
     traces_norm = traces_temp / (np.amax(traces_temp, axis=-1, keepdims=True))
-- 
2.43.0


From 93d8d5a5b6c02b6598fbb8bc3bf608eded24eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 16/41] fix: slopecut kept every trace

The mask of the traces to keep was initialised with True.
---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 9065e4a..549e234 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -540,7 +540,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
         raise ValueErrror("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
-    cslopetot = np.ones(len(traces), dtype=bool)
+    cslopetot = np.zeros(len(traces), dtype=bool)
     cslopetot[cslopeinds] = True
 
     return cslopetot
-- 
2.43.0


From 447e48fecc2ce22a7c0221bdb8417d479178bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 17/41] fix: symmetrizedist did not flip the sign of mostly
 positive values

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 549e234..87f5a8d 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -357,7 +357,7 @@ def symmetrizedist(vals):
 
     # if most vals are positive, flip the sign of them so we can use the same code for both negative and positive vals
     if valsmean>0.0:
-        vals= vals
+        vals = -vals
 
     # choose symmetric upper and lower bounds for histogram to make the middle bin centered on zero (since we want zero mean)
     histupr=max(vals)
-- 
2.43.0


From 465268992256dc6526a2f02d23444c22dd845752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 18/41] fix: unknown outlier algorithm raised NameError instead
 of ValueError

---
 qetpy/cut/_cut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 87f5a8d..4bd51ee 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -456,7 +456,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
     elif outlieralgo=="iterstat":
         cpileup = iterstat(abs(amps), cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cpileup
 
@@ -537,7 +537,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
     elif outlieralgo=="iterstat":
         cslope = iterstat(slopes[czeromeanslopeinds], cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
     cslopetot = np.zeros(len(traces), dtype=bool)
@@ -599,7 +599,7 @@ def baselinecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=
     elif outlieralgo=="iterstat":
         cbaseline = iterstat(tracebegin, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cbaseline
 
@@ -654,7 +654,7 @@ def chi2cut(traces, fs=625e3, outlieralgo="iterstat", nsig=2):
     elif outlieralgo=="iterstat":
         cchi2 = iterstat(chi2, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cchi2
 
-- 
2.43.0


From 4958afb61d130e8c21157d95594bd388470020ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 19/41] fix: get_muon_cut used an undefined name

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 4bd51ee..8ccc5eb 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -800,7 +800,7 @@ def get_muon_cut(traces, thresh_pct = 0.95, nsatbins = 600):
         peak_loc = np.argmax(trace)
         # check that the peak is saturated (this should be true for muons that saturate the
         # detector or muon that rail the amplifier) 
-        if ((peak_loc + int(nsatbins)) < arr.shape[-1]):
+        if ((peak_loc + int(nsatbins)) < trace.shape[-1]):
             if (trace[peak_loc+int(nsatbins)] >= trace_max*thresh_pct):
                 muon_cut[ii] = True                    
     return muon_cut
-- 
2.43.0


From bbe2bcb5faa5236a4e34755e228d2716ca052b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 20/41] fix: pileupcut with removemeans changed the traces of
 the caller

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 8ccc5eb..87d1362 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -443,7 +443,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
 
     if removemeans:
         mean = np.mean(traces, axis=1)
-        traces -= mean[:, np.newaxis]
+        traces = traces - mean[:, np.newaxis]
 
     amps = np.zeros(len(traces))
 
-- 
2.43.0


From 4f38d2978e98534cda626aa7a8d71816cc1e01a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:06 +0000
Subject: [PATCH 21/41] fix: IV.rfit_err is the error of rfit, not rfit

---
 qetpy/core/_iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index e2af134..ed3a0dc 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -297,7 +297,7 @@ class IV(object):
         self.ioff = ioff[:,:,0]
         self.ioff_err = ioff_err[:,:,0]
         self.rfit = rfit[:,:,0]
-        self.rfit_err = rfit[:,:,0]
+        self.rfit_err = rfit_err[:,:,0]
         self.rnorm = rnorm[:,:,0]
         self.rnorm_err = rnorm_err[:,:,0]
 
-- 
2.43.0


From d89499b89e7e7b339c476bc453cde69712be38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:06 +0000
Subject: [PATCH 22/41] fix: IV accepts rload of shape (ntemps, nch, niters)

---
 qetpy/core/_iv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index ed3a0dc..392fbc8 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -216,7 +216,11 @@ class IV(object):
             self.rload = np.swapaxes(np.tile(rload.transpose(),(niters,1,1)),0,-1)
             self.rload_err = np.swapaxes(np.tile(rload_err.transpose(),(niters,1,1)),0,-1)
 
-        elif rload.shape!=(ntemps,nch,niters):
+        elif rload.shape==(ntemps,nch,niters):
+            self.rload = rload
+            self.rload_err = rload_err
+
+        else:
             raise ValueError("the shape of rload doesn't match the data")
         
         self.chan_names = chan_names
-- 
2.43.0


From 1c1247c8e4f5684d17c5eb9b4913f3ea20618c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:06 +0000
Subject: [PATCH 23/41] fix: _findnormalinds keeps the last point when all
 points are normal

---
 qetpy/core/_iv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index 392fbc8..944e60b 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -69,7 +69,8 @@ def _findnormalinds(vb, dites, dites_err, tol=10):
         if red_chi2>tol:
             keepgoing = False
     
-    normalinds = range(0,end_ind-1)
+    # the last point is left out only if the fit including it was not good
+    normalinds = range(0, end_ind if keepgoing else end_ind - 1)
     
     return normalinds
 
-- 
2.43.0


From 41fa6dbf8c1db7abae6991aa421696ab1b087b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:06 +0000
Subject: [PATCH 24/41] fix: IBIS rp_guess as number with lower-dimensional
 data, and of shape (ntemps, nch, niters)

---
 qetpy/core/_ibis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 58967eb..dea7a24 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -206,8 +206,8 @@ class IBIS(object):
         self.ibias_err = np.reshape(ibias_err, (ntemps, nch, niters))
 
         if np.isscalar(rp_guess):
-            self.rp_guess = np.ones_like(dites)*rp_guess
-            self.rp_err_guess = np.ones_like(dites)*rp_err_guess
+            self.rp_guess = np.full(self.dites.shape, rp_guess)
+            self.rp_err_guess = np.full(self.dites.shape, rp_err_guess)
 
         elif rp_guess.shape==(nch,):
             self.rp_guess = np.tile(
@@ -227,7 +227,11 @@ class IBIS(object):
                 np.tile(rp_err_guess.transpose(), (niters,1,1)), 0, -1,
             )
 
-        elif rp_guess.shape!=(ntemps,nch,niters):
+        elif rp_guess.shape==(ntemps,nch,niters):
+            self.rp_guess = rp_guess
+            self.rp_err_guess = rp_err_guess
+
+        else:
             raise ValueError("the shape of rp_guess doesn't match the data")
 
         self.chan_names = chan_names
-- 
2.43.0


From 37bc11d061552335e8b02e7eb5dfa29ba9b60783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:06 +0000
Subject: [PATCH 25/41] fix: IBIS variance of rfit and rp, slope term is rsh^2
 times a variance

---
 qetpy/core/_ibis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index dea7a24..3ccd5ce 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -478,7 +478,7 @@ class IBIS(object):
                 covout = jac.dot(xcov.dot(jac.transpose()))
                 rfit[t, ch] = xout[1] * self.rsh
                 rfit_err[t, ch] = np.sqrt(
-                    (self.rsh * covout[1,1])**2 + (xout[1] * self.rsh_err)**2,
+                    self.rsh**2 * covout[1,1] + (xout[1] * self.rsh_err)**2,
                 )
                 
         # Do SC fit
@@ -511,9 +511,7 @@ class IBIS(object):
                     covout = jac.dot(xcov.dot(jac.transpose()))
                     rp[t, ch] = xout[1] * self.rsh - self.rsh
                     rp_err[t, ch] = np.sqrt(
-                        (
-                            self.rsh * covout[1,1]
-                        )**2 + (
+                        self.rsh**2 * covout[1,1] + (
                             (xout[1] - 1) * self.rsh_err
                         )**2,
                     )
-- 
2.43.0


From 3050934b93fed4ef8da82d2650061e487c93c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:06 +0000
Subject: [PATCH 26/41] fix: IBIS error of ioff, missing factor in the slope
 derivative

---
 qetpy/core/_ibis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 3ccd5ce..1948ac2 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -577,7 +577,7 @@ class IBIS(object):
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     slope_sc[t, ch, 0] - slope_n[t, ch, 0]
-                ) + (
+                ) + slope_n[t, ch, 0] * (
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     (slope_sc[t, ch, 0] - slope_n[t, ch, 0])**2
-- 
2.43.0


From f430ddb7bbefdf7de42e32b2e6ff60daa7ecfe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:06 +0000
Subject: [PATCH 27/41] fix: IBIS errors of the offsets when the SC branch is
 not fitted

---
 qetpy/core/_ibis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 1948ac2..935eb4a 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -600,6 +600,11 @@ class IBIS(object):
                 covout = jac_int.dot(cov_int.dot(jac_int.transpose()))
                 ioff_err[t,ch] = np.sqrt(np.sum(covout))
 
+        # without an SC fit, the offset is the intercept of the normal fit
+        if not self.fitsc:
+            ioff_err = int_n_err
+            ibias_off_err = np.zeros_like(int_n)
+
         # if yoff and xoff are specified, use these instead of the
         # calculated values
         if yoff is None:
-- 
2.43.0


From 1a0beab5b55da7bc09c1537f301018970b27d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:06 +0000
Subject: [PATCH 28/41] fix: IBIS.analyze accepts numbers for yoff and xoff

---
 qetpy/core/_ibis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 935eb4a..6d72a9c 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -610,13 +610,13 @@ class IBIS(object):
         if yoff is None:
             ioff = int_point_y
         else:
-            ioff = yoff
-            ioff_err = yoff_err
+            ioff = np.full_like(int_n, yoff)
+            ioff_err = np.full_like(int_n, yoff_err)
         if xoff is None:
             ibias_off = int_point_x
         else:
-            ibias_off = xoff
-            ibias_off_err = xoff_err
+            ibias_off = np.full_like(int_n, xoff)
+            ibias_off_err = np.full_like(int_n, xoff_err)
 
         self.slope_n = slope_n
         self.slope_sc = slope_sc
-- 
2.43.0


From 1b3a9b8ae2dc2175ca79fb3ef40aefc35e9cd75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 29/41] fix: OFnonlin.twopole keeps the sign of the pulse for
 tau_r > tau_f

---
 qetpy/core/_fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 6672d48..a3242f2 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1918,8 +1918,8 @@ class OFnonlin(object):
             delta = tau_r - tau_f
             rat = tau_r / tau_f
             amp = A / (rat**(-tau_r / delta) - rat**(-tau_f / delta))
-            pulse = amp * np.abs(
-                tau_r-tau_f
+            pulse = amp * (
+                tau_f-tau_r
             ) / (
                 1 + omega * tau_f * 1j
             ) / (
-- 
2.43.0


From 129a6d2d38336332cd7e78dfc06cffddb6c6a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 30/41] fix: OFnonlin pulses are shifted by the nearest number
 of samples to t0

---
 qetpy/core/_fitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index a3242f2..603ed85 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1777,7 +1777,7 @@ class OFnonlin(object):
         ) - (
             (A + B + C) * (np.exp(-self.time / tau_r))
         )
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(np.round(t0 * self.fs)))
 
     def threepole(self, A, B, tau_r, tau_f1, tau_f2, t0):
         """
@@ -1876,7 +1876,7 @@ class OFnonlin(object):
         ) - (
             (A + B) * (np.exp(-self.time / tau_r))
         )
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(np.round(t0 * self.fs)))
 
 
     def twopole(self, A, tau_r, tau_f, t0):
@@ -1985,7 +1985,7 @@ class OFnonlin(object):
                 A * (np.exp(-self.time / tau_r))
             )
 
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(np.round(t0 * self.fs)))
 
 
     def onepole(self, A, tau_f, t0):
-- 
2.43.0


From d0876177c272115b24e877b9e3b7ad6a6a6a448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 31/41] fix: OFnonlin.fit_falltimes bounds and scales for
 negative amplitudes

---
 qetpy/core/_fitting.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 603ed85..e0f09aa 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2271,7 +2271,8 @@ class OFnonlin(object):
                                tauriseguess * 10, taufall1guess * 10,
                                taufall2guess * 10, taufall3guess * 10,
                                t0guess + 30 / self.fs)
-                bounds = (boundslower, boundsupper)
+                bounds = (np.minimum(boundslower, boundsupper),
+                          np.maximum(boundslower, boundsupper))
         elif (self.npolefit==3):
             self.dof = 6
             p0 = (Aguess, Bguess, tauriseguess, taufall1guess, taufall2guess,
@@ -2283,7 +2284,8 @@ class OFnonlin(object):
                 boundsupper = (Aguess * 100, Bguess * 100, tauriseguess * 10,
                                taufall1guess * 10, taufall2guess * 10,
                                t0guess + 30 / self.fs)
-                bounds = (boundslower, boundsupper)
+                bounds = (np.minimum(boundslower, boundsupper),
+                          np.maximum(boundslower, boundsupper))
         elif (self.npolefit==2):
             self.dof = 4
             p0 = (ampguess, tauriseguess, taufallguess, t0guess)
@@ -2292,7 +2294,8 @@ class OFnonlin(object):
                                taufallguess / 10, t0guess - 30 / self.fs)
                 boundsupper = (ampguess * 100, tauriseguess * 10,
                                taufallguess * 10, t0guess + 30 / self.fs)
-                bounds = (boundslower, boundsupper)
+                bounds = (np.minimum(boundslower, boundsupper),
+                          np.maximum(boundslower, boundsupper))
         else:
             self.dof = 3
             p0 = (ampguess, taufallguess, t0guess)
@@ -2301,14 +2304,18 @@ class OFnonlin(object):
                                t0guess - 30 / self.fs)
                 boundsupper = (ampguess * 100, taufallguess * 10,
                                t0guess + 30 / self.fs)
-                bounds = (boundslower, boundsupper)
+                bounds = (np.minimum(boundslower, boundsupper),
+                          np.maximum(boundslower, boundsupper))
 
+        # the scales must be positive
+        x_scale = 1.0 * np.abs(p0)
+        x_scale[-1] = max(x_scale[-1], 1 / self.fs)
 
         result = least_squares(
             self.residuals,
             x0=p0,
             bounds=bounds,
-            x_scale=p0,
+            x_scale=x_scale,
             jac='3-point',
             loss='linear',
             xtol=2.3e-16,
-- 
2.43.0


From c60c774f29fdf11e269a9c97d7d79c07b62ea9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 32/41] fix: OFnonlin.fit_falltimes initial amplitude when the
 pulse is near the start

---
 qetpy/core/_fitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index e0f09aa..e9d17bb 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2224,7 +2224,7 @@ class OFnonlin(object):
                 # on the detector being analyzed.
                 # good guess for t0 particularly important to provide
                 Aguess = np.mean(
-                    templateforguess[maxind - 7:maxind + 7]
+                    templateforguess[max(maxind - 7, 0):maxind + 7]
                 ) * ampscale
                 Bguess = Aguess / 3
                 Cguess = Aguess / 3
@@ -2235,7 +2235,7 @@ class OFnonlin(object):
                 t0guess = maxind / self.fs
             elif (self.npolefit==3):
                 Aguess = np.mean(
-                    templateforguess[maxind - 7:maxind + 7]
+                    templateforguess[max(maxind - 7, 0):maxind + 7]
                 ) * ampscale
                 Bguess = Aguess / 3
                 tauriseguess = 20e-6
@@ -2244,7 +2244,7 @@ class OFnonlin(object):
                 t0guess = maxind / self.fs
             else:
                 ampguess = np.mean(
-                    templateforguess[maxind-7:maxind+7]
+                    templateforguess[max(maxind-7, 0):maxind+7]
                 ) * ampscale
                 tauval = 0.37 * ampguess
                 endt_val = int(300e-6 * self.fs)
-- 
2.43.0


From 73dee6da607eac929686ee7a8da375e7bcb5b3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 33/41] fix: MuonTail initial time constant is at least one
 sample

---
 qetpy/core/_fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index e9d17bb..f22a6a5 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2541,7 +2541,9 @@ class MuonTailFit(object):
         self.error = np.sqrt(self.psd / errscale)
 
         ampguess = np.max(signal) - np.min(signal)
-        tauguess = np.argmin(np.abs(signal - ampguess / np.e)) / self.fs
+        tauguess = max(
+            np.argmin(np.abs(signal - ampguess / np.e)), 1
+        ) / self.fs
 
         p0 = (ampguess, tauguess)
         boundslower = (0, 0)
-- 
2.43.0


From 51cc25d3376fb3f6554e5fd1336fec2b99913df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 34/41] fix: get_dataFilterNSMB keeps the axes of B for one
 background template

---
 qetpy/core/_of_nsmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index c361bf0..752d390 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -284,7 +284,7 @@ def of_nsmb_setup(stemplatet, btemplatet, psd, fs):
                 P[jr,jc,:] = P[jc,jr,:]
    
     # invert the background-background matrix
-    B = np.squeeze(B)
+    B = B[..., 0]
     iB = np.linalg.pinv(B)
     
     bitcomb = [list(i) for i in itertools.product([0,1],repeat=nsb)]
-- 
2.43.0


From c43bb5914513c966bbb26476dc0774170b7536c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 35/41] fix: NSMB fits with a single allowed template

---
 qetpy/core/_of_nsmb.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 752d390..6f22145 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -149,7 +149,7 @@ def of_nsmb_getPt(Pfs, P, combind=2**20, bindelay=0, bitcomb=None, bitmask=None)
     nsbmask = np.sum(bitmask)
     
     # get indices of the nonzero elements in the mask
-    indexbitmask = np.squeeze(np.nonzero(bitmask)) 
+    indexbitmask = np.nonzero(bitmask)[0] 
         
     try:
         Pmask = P[np.ix_(indexbitmask[0:ns], indexbitmask[0:nsbmask])]
@@ -849,7 +849,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         a_tset_boundary = np.copy(a_tset)
 
         # set the elements in disallowed region to boundary (0.0)
-        index_forcezero = np.squeeze(np.nonzero(bitcomb_forcezero))
+        index_forcezero = np.nonzero(bitcomb_forcezero)[0]
         a_tset_boundary[index_forcezero] = 0.0
 
         # calculate vector from absolute minimum to closest allowed point
@@ -875,7 +875,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it1)
         # select the elements that are not zero
-        indexBitMask = np.squeeze(np.nonzero(bitcombfit_it1))
+        indexBitMask = np.nonzero(bitcombfit_it1)[0]
         
         qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
         # redo fit in collapsed space
@@ -895,7 +895,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         a_tset_boundary = np.expand_dims(np.copy(a_tsetnew[:,ii]), axis=1)
 
         # set the elements in disallowed region to boundary (0.0)
-        index_forcezero = np.squeeze(np.nonzero(bitcomb_forcezero))
+        index_forcezero = np.nonzero(bitcomb_forcezero)[0]
         a_tset_boundary[index_forcezero] = 0.0
         vecfromabsmin = a_tset_boundary - a_tset
 
@@ -913,7 +913,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                             bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it2)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it2))
+            indexBitMask = np.nonzero(bitcombfit_it2)[0]
             
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
@@ -939,7 +939,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it3)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it3))
+            indexBitMask = np.nonzero(bitcombfit_it3)[0]
 
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
-- 
2.43.0


From b69c174ae0f65ab51d36e189b01fc8956bd3490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 36/41] fix: of_mb drops templates until none has the forbidden
 polarity

---
 qetpy/core/_of_nsmb.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 6f22145..b35ae00 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -448,19 +448,24 @@ def of_mb(pulset, phi, sbtemplatef, sbtemplate, iB, B, psddnu, fs, ns, nb, lfind
     # background templates that will not be forced to zero
     bitcombfitBackground = 1 - bitcomb_forcezero
 
-    numBCon = np.sum(bitcombfitBackground)
-    indexBitMaskBackground = np.squeeze(np.nonzero(bitcombfitBackground))
+    # refit without the templates that were forced to zero, until no amplitude
+    # is in its disallowed region (at least one more template is dropped each time)
+    for _ in range(nb + 1):
+        indexBitMaskBackground = np.nonzero(bitcombfitBackground)[0]
 
-    tempBackgroundSum  = backgroundsum[np.ix_(indexBitMaskBackground)]
+        B_Mask = B[np.ix_(indexBitMaskBackground, indexBitMaskBackground)]
+        iB_Mask = np.linalg.pinv(B_Mask)
 
-    B_Mask = B[np.ix_(indexBitMaskBackground, indexBitMaskBackground)]
-    iB_Mask = np.linalg.pinv(B_Mask)
+        # background only fit with only the masked backgrounds active
+        bOnlyAConMask = iB_Mask@backgroundsum[np.ix_(indexBitMaskBackground)]
 
-    # background only fit with only the masked backgrounds active    
-    bOnlyAConMask = iB_Mask@backgroundsum[np.ix_(indexBitMaskBackground)]
+        bOnlyACon = np.zeros((nsb-ns,1))
+        bOnlyACon[np.ix_(indexBitMaskBackground)] = bOnlyAConMask
 
-    bOnlyACon = np.zeros((nsb-ns,1))
-    bOnlyACon[np.ix_(indexBitMaskBackground)] = bOnlyAConMask
+        bitcomb_forcezero = _index_disallowed(bOnlyACon, bkgpolarityconstraint)
+        if np.array_equal(1 - bitcomb_forcezero, bitcombfitBackground):
+            break
+        bitcombfitBackground = 1 - bitcomb_forcezero
 
     # calc chi2 of constrained background only fit
     bestFitBOnlyCon = btemplate@bOnlyACon
-- 
2.43.0


From e2e00c9cabd3a979aec7c7c2465fab5b5d5fbc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 37/41] fix: of_nsmb_con drops templates until none has the
 forbidden polarity

---
 qetpy/core/_of_nsmb.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index b35ae00..b29b99f 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -934,10 +934,14 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         # set to zero if so
         ######
 
-        bitcomb_forcezero = _index_disallowed(a_tsetnew[:,ii], sbpolcon)
-        bitcombfit_it3 = 1 - bitcomb_forcezero
-        
-        if (np.array_equal(bitcombfit_it2, bitcombfit_it3)==False):
+        # (repeated, since the refit can change the sign of another amplitude;
+        # at least one more template is dropped each time)
+        for _ in range(nsb + 1):
+            bitcomb_forcezero = _index_disallowed(a_tsetnew[:,ii], sbpolcon)
+            bitcombfit_it3 = 1 - bitcomb_forcezero
+
+            if np.array_equal(bitcombfit, bitcombfit_it3):
+                break
 
             bitcombfit = bitcombfit_it3
 
-- 
2.43.0


From 748915489865e0991300ba2f5d25e5713a715b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 38/41] fix: of_nsmb does not change the window given by the
 caller

---
 qetpy/core/_of_nsmb.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index b29b99f..ff8fc9e 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -630,13 +630,9 @@ def of_nsmb(pulset, phi, sbtemplatef, sbtemplate, iPt, psddnu, fs, indwindow_nsm
     chi2_t=chi2base-chi2t0
 
     # constrain best guess based on indwindow ===
-    # if the window given wraps to negative values convert all to positive values
-    lgcneg = indwindow < 0
-    indwindow[lgcneg] = nt+indwindow[lgcneg]
-
-    #finally ensure that nothing is larger than nt
-    lgc_toobig= indwindow >= nt;
-    indwindow[lgc_toobig]=np.mod(indwindow[lgc_toobig],nt)    
+    # if the window given wraps to negative values or is larger than nt,
+    # convert to the range of the trace (without changing the caller's window)
+    indwindow = np.mod(indwindow, nt)
 
 
     # find the chi2 minimum
-- 
2.43.0


From 4192d09e0f9064d5e99469734cc88b4d8faa916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 39/41] fix: of_nsmb_con best delay at the edge of the trace

---
 qetpy/core/_of_nsmb.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index ff8fc9e..f668e13 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -962,7 +962,8 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         chi2new[ii] = chi2base-chi2t0setMask
         
         
-    indwindow = indwindow_nsmb[0]
+    # delays may be given as negative numbers
+    indwindow = np.mod(indwindow_nsmb[0], nt)
     chi2new = np.squeeze(chi2new)
     chi2min= np.amin(chi2new[indwindow])
     ind_tdel_smNew = np.argmin(chi2new[indwindow])
@@ -976,7 +977,14 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
     tdelmin = ((ind_tdel_New) - nt*(ind_tdel_New>nt/2))*dt
     bitcombfitFinal = np.squeeze(bitcombfitVec[:,ind_tdel_New])
     timearray_chi2 = np.arange(nt)*dt 
-    time_chi2min_interp, chi2min_interp, amincon_int = _interpchi2(ind_tdel_New,
+    ind_chi2min = int(ind_tdel_New[0])
+    if (ind_chi2min==0 or ind_chi2min==(nt - 1)):
+        # skip interpolation since min index is at edge
+        time_chi2min_interp = timearray_chi2[ind_chi2min]
+        chi2min_interp = chi2min
+        amincon_int = a_tsetnew[0,ind_chi2min]
+    else:
+        time_chi2min_interp, chi2min_interp, amincon_int = _interpchi2(ind_chi2min,
                                                                        chi2new,
                                                                        a_tsetnew[0,:],
                                                                        timearray_chi2)
-- 
2.43.0


From faf27fdb285a427b807cc629d752af4eb596915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 40/41] fix: NSMB slope template has exactly nbin samples

---
 qetpy/core/_of_nsmb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index f668e13..0c418e2 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1205,7 +1205,7 @@ def get_slope_dc_template_nsmb(nbin):
     backgroundtemplates = np.ones((nbin,2))
     
     # construct the sloped background
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
     
     backgroundtemplatesshifts = np.empty((2))
     backgroundtemplatesshifts[:] = np.nan
@@ -1303,7 +1303,7 @@ def maketemplate_ttlfit_nsmb(template, fs, ttlrate, lgcconstrainpolarity=False,
                 backgroundpolarityconstraint[ii] = -1
             
     # construct the sloped background for the second to last template
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
 
     # the slope and dc background don't have a bin shift,
     # so set these values to nan
-- 
2.43.0


From 6260e5479eedb5586c27d72b87b8f3455f8d3846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:12 +0000
Subject: [PATCH 41/41] fix: make_decreasing keeps values of zero and a lowest
 first value

---
 qetpy/utils/_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index e09493f..62d8b48 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -242,16 +242,18 @@ def make_decreasing(y, x=None):
     if x is None:
         x = np.arange(len(y))
 
-    y_dec = np.zeros(len(y))
-    y_dec[0] = y[0]
+    interp_inds = np.zeros(len(y), dtype=bool)
+    interp_inds[0] = True
     last_val = y[0]
 
     for ii, val in enumerate(y):
         if (last_val > val):
             last_val = y[ii]
-            y_dec[ii] = y[ii]
+            interp_inds[ii] = True
 
-    interp_inds = y_dec!=0
+    if np.sum(interp_inds) == 1:
+        # no value is below the first one
+        return np.full(len(y), y[0], dtype=float)
 
     f = interpolate.interp1d(
         x[interp_inds], y[interp_inds], fill_value="extrapolate",
-- 
2.43.0

