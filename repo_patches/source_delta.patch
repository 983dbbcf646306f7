From c195228f7085d75fa2463bef3b9e9e54d6a294c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 01/31] fix: save_input: write valid JSON for an empty input

---
 empymod/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/io.py b/empymod/io.py
index 1a73d2b..d995794 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -68,7 +68,7 @@ def save_input(fname, data, **kwargs):
             out += "\n  "
             out += json.dumps({k: v}, cls=_ComplexNumPyEncoder)[1:-1]
             out += ","
-        out = out[:-1] + "\n}"
+        out = out.rstrip(",") + "\n}"
 
         # Write it to disk.
         with open(fname, "w") as f:
-- 
2.43.0


From 7f3dc32555e06d278f9de8290494c9e0f41f7366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 02/31] fix: tmtemod.dipole: non-physical T+- term relative to
 top of layer

---
 empymod/scripts/tmtemod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/scripts/tmtemod.py b/empymod/scripts/tmtemod.py
index 1c9a3b6..bab8177 100644
--- a/empymod/scripts/tmtemod.py
+++ b/empymod/scripts/tmtemod.py
@@ -537,7 +537,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTE[0] += npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTE[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*ddepth[lrec]))
     PTE[3] += npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # TM modes TM[uu, ud, du, dd]
@@ -545,7 +545,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTM[0] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTM[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*ddepth[lrec]))
     PTM[3] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # 3.5 Reshape for number of sources
-- 
2.43.0


From fe15d29a81c962e910d79ee2396b68f2a49c36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 03/31] fix: bipole: do not ignore a negative source strength

---
 empymod/model.py | 2 +-
 empymod/utils.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 81c0b17..2c8389e 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -606,7 +606,7 @@ def bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,
 
             # Scale signal for src-strength and src/rec-lengths
             src_rec_w = 1
-            if strength > 0:
+            if strength != 0:
                 src_rec_w *= np.repeat(src_w, irec)
                 src_rec_w *= np.tile(rec_w, isrc)
             sEM *= src_rec_w
diff --git a/empymod/utils.py b/empymod/utils.py
index 74cc87e..81326f5 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1859,9 +1859,9 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
         # If dipole, g_w are ones
         g_w = np.ones(tinp[0].size)
 
-        # If dipole, inp_w are ones, unless strength > 0
+        # If dipole, inp_w are ones, unless strength != 0
         inp_w = np.ones(tinp[0].size)
-        if name == 'src' and strength > 0:
+        if name == 'src' and strength != 0:
             inp_w *= strength
 
         # Collect output
@@ -1918,7 +1918,7 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
 
         # Scaling
         inp_w = np.ones(dl.size)
-        if strength > 0:  # If strength > 0, we scale it by dipole-length
+        if strength != 0:  # If strength != 0, we scale it by dipole-length
             inp_w *= dl
             if name == 'src':  # If source, additionally by source strength
                 inp_w *= strength
-- 
2.43.0


From 40255c1263c6b1b4bdf2252211d5250f4dd59005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 04/31] fix: gpr: no gain is applied if gain is None (default)

---
 empymod/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 2c8389e..098b19c 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1281,7 +1281,8 @@ def gpr(src, rec, depth, res, freqtime, cf, gain=None, ab=11, aniso=None,
     conv_warning(conv, ftarg, 'Fourier', verb)
 
     # Apply gain; make pure real
-    EM *= (1 + np.abs((time*10**9)**gain))[:, None]
+    if gain is not None:
+        EM *= (1 + np.abs((time*10**9)**gain))[:, None]
     EM = EM.real
 
     # Reshape for number of sources
-- 
2.43.0


From db235d0f6954bf219677a88fb2b356872cd68dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 05/31] fix: dipole_k: use the computed ab for angle factor and
 J2 (mrec)

---
 empymod/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 098b19c..4d991e2 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1440,7 +1440,7 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
 
     # Get angle-dependent factor
     off, angle = get_off_ang(src, rec, nsrc, nrec, verb)
-    ang_fact = kernel.angle_factor(angle, ab, msrc, mrec)
+    ang_fact = kernel.angle_factor(angle, ab_calc, msrc, mrec)
 
     # Get layer number in which src and rec reside (lsrc/lrec)
     lsrc, zsrc = get_layer_nr(src, depth)
@@ -1474,7 +1474,7 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
         # Collect output
         if J1 is not None:
             PJ1 += ang_fact[:, np.newaxis]*J1
-            if ab in [11, 12, 21, 22, 14, 24, 15, 25]:  # Because of J2
+            if ab_calc in [11, 12, 21, 22, 14, 24, 15, 25]:  # Because of J2
                 # J2(kr) = 2/(kr)*J1(kr) - J0(kr)
                 PJ1 /= off[:, None]
         if J0 is not None:
-- 
2.43.0


From 71fe7962ed8ad59de279392a17ccba18a2b77a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 06/31] fix: check_hankel: reject names which are only a
 substring of 'quad'

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 81326f5..84678e7 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -657,7 +657,7 @@ def check_hankel(ht, htarg, verb):
             if targ['limit']:
                 print(f"     > limit (quad):  {targ['limit']}")
 
-    elif ht in 'quad':  # QUAD
+    elif ht == 'quad':  # QUAD
 
         # rtol : 1e-12
         targ['rtol'] = _check_var(
-- 
2.43.0


From e16526e930dfd630dcbaeb11531442f73fb281e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 07/31] fix: CLI main: honour explicitly provided args

---
 empymod/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/__main__.py b/empymod/__main__.py
index 3a60842..d3d4239 100644
--- a/empymod/__main__.py
+++ b/empymod/__main__.py
@@ -90,7 +90,7 @@ def main(args=None):
         print(utils.Report())
 
     # Info if not at list routine and input provided.
-    elif len(sys.argv) < 3:
+    elif len(args) < 2:
         print(f"{parser.description}\n=> Type `empymod --help` for "
               f"more info (empymod v{utils.__version__}).")
 
-- 
2.43.0


From 1708663136f5b14cb13a42c175212b3b10574543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 08/31] fix: fdesign.design: do not modify the provided fC

---
 empymod/scripts/fdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index 8738c5f..d1a878a 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -389,7 +389,7 @@ def design(n, spacing, shift, fI, fC=False, r=None, r_def=(1, 1, 2), reim=None,
     if fI[0].name == 'j2':
         raise ValueError("j2 (jointly j0 and j1) is only implemented for "
                          "fC, not for fI!")
-    fC = check_f(fC)
+    fC = dc(check_f(fC))  # Copy, as rhs is replaced below
 
     # Check default input values
     if finish and not callable(finish):
-- 
2.43.0


From e0ba54a5caf3ff08f370faf9474fb576bad51aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 09/31] fix: fourier_fftlog: do not modify the input field in
 place

---
 empymod/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 4235f51..7746544 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -699,7 +699,7 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     if mu > 0:  # Sine
         a = -fEM.imag
     else:       # Cosine
-        a = fEM.real
+        a = fEM.real.copy()
     n = a.size
 
     # 1. Amplitude and Argument of kr^(-2 i y) U_mu(q + 2 i y)
-- 
2.43.0


From 7b50cf4363ffb2faa8d19982958fa34e922c1e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 10/31] fix: ip_and_q: co-planar primary field also if ab is a
 string

---
 empymod/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 4d991e2..249f917 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1570,11 +1570,12 @@ def ip_and_q(**kwargs):
     new = copy.deepcopy(kwargs)
 
     # For the primary field, use the co-planar field of source configuration.
-    if new['ab'] in [44, 54, 64]:
+    ab = int(new['ab'])
+    if ab in [44, 54, 64]:
         new['ab'] = 44
-    elif new['ab'] in [45, 55, 65]:
+    elif ab in [45, 55, 65]:
         new['ab'] = 55
-    elif new['ab'] in [46, 56, 66]:
+    elif ab in [46, 56, 66]:
         new['ab'] = 66
 
     # Take only the first value of each parameter, and set depth to empty.
-- 
2.43.0


From 2c3ecac76b2bd0c09434963736d878d3ee750c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 11/31] fix: analytical: accept frequencies given as a list in
 diffusive solutions

---
 empymod/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 249f917..01926d4 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1157,7 +1157,7 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
     if solution[0] == 'd':
         # To make it work with Laplace domain calculations.
         if signal is None:
-            if np.any(freqtime > 0):
+            if np.any(np.asarray(freqtime) > 0):
                 freqtime = 2j*np.pi*freq
             else:
                 freqtime = freq
-- 
2.43.0


From a81791cbcfd0ec2ba64185b7953a79b0e7897cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 12/31] fix: analytical: diffusive solutions used the medium of
 the first frequency only

---
 empymod/model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 01926d4..5886adc 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1161,8 +1161,17 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
                 freqtime = 2j*np.pi*freq
             else:
                 freqtime = freq
-        EM = kernel.halfspace(off, angle, zsrc, zrec, etaH, etaV,
-                              freqtime[:, None], ab_calc, signal, solution)
+        if signal is None:
+            # One frequency at a time, as etaH/etaV are frequency-dependent.
+            EM = [kernel.halfspace(off, angle, zsrc, zrec, etaH[i:i+1, :],
+                                   etaV[i:i+1, :], freqtime[i:i+1, None],
+                                   ab_calc, signal, solution)
+                  for i in range(freq.size)]
+            # Collect frequencies (for each part of the split solutions).
+            EM = np.concatenate(EM, axis=-2)
+        else:
+            EM = kernel.halfspace(off, angle, zsrc, zrec, etaH, etaV,
+                                  freqtime[:, None], ab_calc, signal, solution)
     else:
         if ab_calc not in [36, ]:
             EM = kernel.fullspace(off, angle, zsrc, zrec, etaH, etaV, zetaH,
-- 
2.43.0


From bc19bf7f9264d3013306c645a8369ee837ea5f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 13/31] fix: fullspace: MM response was NaN in the Laplace
 domain

---
 empymod/kernel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index df13c48..753fc47 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -831,11 +831,12 @@ def fullspace(off, angle, zsrc, zrec, etaH, etaV, zetaH, zetaV, ab, msrc,
 
         term3 = -zetaH[:, None]*coo1*coo2/(off*off)*(uGamTM - uGamTE)
 
-        term4 = -np.sqrt(zetaH)[:, None]*(2*coo1*coo2/(off*off) - delta)
-        if np.any(zetaH.imag < 0):  # We need the sqrt where Im > 0.
-            term4 *= -1     # This if-statement corrects for it.
+        # Note: zetaH/sqrt(zetaH*etaH) instead of sqrt(zetaH)/sqrt(etaH), as
+        #       both are negative and real for MM in the Laplace domain.
+        term4 = -(zetaH/np.sqrt(zetaH*etaH))[:, None]
+        term4 = term4*(2*coo1*coo2/(off*off) - delta)
         term4 *= np.exp(-lGamTM[:, None]*RTM) - np.exp(-lGamTE[:, None]*RTE)
-        term4 /= 4*np.pi*np.sqrt(etaH)[:, None]*off*off
+        term4 /= 4*np.pi*off*off
 
         gin = term1 + term2 + term3 + term4
 
-- 
2.43.0


From 29f21893565a8aeed0a11fbbb177c3ed5d5e8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 14/31] fix: reject signals which are not exactly -1, 0, or 1
 (also in waveforms)

---
 empymod/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 84678e7..d8f1d0a 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1324,14 +1324,14 @@ def check_time_only(time, signal, verb, new=False):
         _prnt_min_max_val(time, "   time        [s] : ", verb)
 
     # Check input signal
-    if isinstance(signal, dict) and new:
+    waveform = isinstance(signal, dict) and new
+    if (signal.get('signal', 0) if waveform else signal) not in [-1, 0, 1]:
+        raise ValueError("<signal> must be one of: [None, -1, 0, 1, dict]; "
+                         f"<signal> provided: {signal}")
+    elif waveform:
         time, signal = check_waveform(time, **signal, verb=verb)
         if verb > 2:
             print(f"   signal          :  {signal['signal']}")
-
-    elif int(signal) not in [-1, 0, 1]:
-        raise ValueError("<signal> must be one of: [None, -1, 0, 1, dict]; "
-                         f"<signal> provided: {signal}")
     elif verb > 2:
         print(f"   signal          :  {signal}")
 
-- 
2.43.0


From f7e7662da15f659dd12e2f26fcc0529970f6bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 15/31] fix: analytical: no frequency warnings for times in the
 time domain

---
 empymod/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 5886adc..3a1c0a0 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1124,8 +1124,9 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
     depth, res, aniso, epermH, epermV, mpermH, mpermV, _ = model
 
     # Check frequency => get etaH, etaV, zetaH, and zetaV
+    # (In the time domain, <freqtime> are times; print nothing for those.)
     frequency = check_frequency(freqtime, res, aniso, epermH, epermV, mpermH,
-                                mpermV, verb)
+                                mpermV, verb if signal is None else 0)
     freq, etaH, etaV, zetaH, zetaV = frequency
 
     # Update etaH/etaV and zetaH/zetaV according to user-provided model
-- 
2.43.0


From da1634e728636e5801f32c8914abb8e027cb6ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 16/31] fix: verb=4 failed with several times and a standard
 Fourier DLF

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index d8f1d0a..da367b3 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -2164,7 +2164,7 @@ def _check_var(var, dtype, ndmin, name, shape=None, shape2=None):
 
 def _strvar(a, prec='{:G}'):
     r"""Return variable as a string to print, with given precision."""
-    return ' '.join([prec.format(i) for i in np.atleast_1d(a)])
+    return ' '.join([prec.format(i) for i in np.ravel(a)])
 
 
 def _prnt_min_max_val(var, text, verb):
-- 
2.43.0


From c295ee976f727d5694d87ef800e720ef55a5e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:29 +0000
Subject: [PATCH 17/31] fix: hankel_qwe, hankel_quad: failed in the Laplace
 domain

---
 empymod/transform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index 7746544..a109459 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -416,6 +416,10 @@ def hankel_qwe(zsrc, zrec, lsrc, lrec, off, ang_fact, depth, ab, etaH, etaV,
         fEM, kcount, conv = qwe(rtol, atol, maxint, getkernel, intervals,
                                 lambd, off, ang_fact)
 
+    # The field is real in the Laplace domain.
+    if np.isrealobj(etaH):
+        fEM = fEM.real
+
     return fEM, kcount, conv
 
 
@@ -498,6 +502,10 @@ def hankel_quad(zsrc, zrec, lsrc, lrec, off, ang_fact, depth, ab, etaH, etaV,
                           off[i], ang_fact[i], iinp)
         conv *= tc
 
+    # The field is real in the Laplace domain.
+    if np.isrealobj(etaH):
+        fEM = fEM.real
+
     # Return the electromagnetic field
     # Second argument (1) is the kernel count, last argument is only for QWE.
     return fEM, 1, conv
-- 
2.43.0


From ca4832a3db83d0e97553869779c6b3f23920a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 18/31] fix: qwe: report convergence reached in the last
 interval

---
 empymod/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index a109459..964eac9 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -1129,8 +1129,8 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
 
     # 4. Cleaning up
 
-    # Warning if maxint is potentially too small
-    conv = i+1 != maxint
+    # Not converged if any did not reach the tolerance within maxint
+    conv = not om.any()
 
     # Catch the ones that did not converge
     EM[om] = extrap[om, i-1]
-- 
2.43.0


From fbc3a698806755cbbd4fef8524a3f72b1270eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 19/31] fix: qwe: return the converged value, not the previous
 one or zero

---
 empymod/transform.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 964eac9..474d7a8 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -1108,8 +1108,14 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
                 S[om, k-1] = np.where(np.abs(ddff) < np.finfo(np.double).tiny,
                                       np.finfo(np.double).max, aux1 + 1/ddff)
 
+        # The extrapolation breaks down if the sum does not change any more
+        # (np.finfo(np.double).max); the sum itself is then the result.
+        tail = S[om, np.mod(i, 2)]
+        broke = tail.real == np.finfo(np.double).max
+        tail[broke] = S[om, i][broke]
+
         # The extrapolated result plus the first interval term
-        extrap[om, i-1] = S[om, np.mod(i, 2)] + EM0[om]
+        extrap[om, i-1] = tail + EM0[om]
 
         # 3.c Analyze for convergence
         if i > 1:
@@ -1118,12 +1124,12 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
             relErr[om, i-1] = np.abs(rErr)
             abserr = atol/np.abs(extrap[om, i-1])
 
-            # Update booleans
-            om[om] *= relErr[om, i-1] >= rtol + abserr
-
             # Store in EM
             EM[om] = extrap[om, i-1]
 
+            # Update booleans
+            om[om] *= relErr[om, i-1] >= rtol + abserr
+
         if (~om).all():
             break
 
@@ -1135,9 +1141,6 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
     # Catch the ones that did not converge
     EM[om] = extrap[om, i-1]
 
-    # Set np.finfo(np.double).max to 0
-    EM.real[EM.real == np.finfo(np.double).max] = 0
-
     return EM, kcount, conv
 
 
-- 
2.43.0


From 689d8aca338aeebfb7911910995b360945599a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 20/31] fix: fftlog: Nyquist element of biased transforms used
 a wrong factor

---
 empymod/transform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 474d7a8..4df4825 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -784,8 +784,7 @@ def fourier_fftlog(fEM, time, freq, ftarg):
 
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
-            m = int(n/2)-3
-            ar = argcos[m-1]*argamp[m-1]
+            ar = argcos[-1]*argamp[-1]
             a[-1] *= ar
 
     # 4.c normal FFT back
-- 
2.43.0


From 233d5207ca8dfb762a9c5ff9bcaecc11045db3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 21/31] fix: fftlog: last frequency was not transformed for odd
 number of points

---
 empymod/transform.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 4df4825..275c4a0 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -758,13 +758,13 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     a = sp.fftpack.rfft(a)
 
     # 4.b
-    m = np.arange(1, n//2, dtype=np.int64)  # index variable
+    m = np.arange(1, (n+1)//2, dtype=np.int64)  # index variable
     if q == 0:  # unbiased (q = 0) transform
         # multiply by (kr)^[- i 2 m pi/(n dlnr)] U_mu[i 2 m pi/(n dlnr)]
         ar = a[2*m-1]
         ai = a[2*m]
-        a[2*m-1] = ar*argcos[:-1] - ai*argsin[:-1]
-        a[2*m] = ar*argsin[:-1] + ai*argcos[:-1]
+        a[2*m-1] = ar*argcos[:m.size] - ai*argsin[:m.size]
+        a[2*m] = ar*argsin[:m.size] + ai*argcos[:m.size]
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
             ar = argcos[-1]
@@ -775,12 +775,12 @@ def fourier_fftlog(fEM, time, freq, ftarg):
         # phase
         ar = a[2*m-1]
         ai = a[2*m]
-        a[2*m-1] = ar*argcos[:-1] - ai*argsin[:-1]
-        a[2*m] = ar*argsin[:-1] + ai*argcos[:-1]
+        a[2*m-1] = ar*argcos[:m.size] - ai*argsin[:m.size]
+        a[2*m] = ar*argsin[:m.size] + ai*argcos[:m.size]
 
         a[0] *= argcos1
-        a[2*m-1] *= argamp[:-1]
-        a[2*m] *= argamp[:-1]
+        a[2*m-1] *= argamp[:m.size]
+        a[2*m] *= argamp[:m.size]
 
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
-- 
2.43.0


From 4ab727d46e093cad6b226001de36d132cfe2c339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 22/31] fix: fftlog: fewer points per decade than requested for
 fractional decades

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index da367b3..9798c69 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1191,7 +1191,7 @@ def check_time(time, signal, ft, ftarg, verb, new=False):
         # Calculate minimum and maximum required frequency
         minf = np.log10(1/time.max()) + targ['add_dec'][0]
         maxf = np.log10(1/time.min()) + targ['add_dec'][1]
-        n = np.int64(maxf - minf)*targ['pts_per_dec']
+        n = np.int64(np.round((maxf - minf)*targ['pts_per_dec']))
 
         # Initialize FFTLog, get required parameters
         freq, tcalc, dlnr, kr, rk = transform.get_fftlog_input(
-- 
2.43.0


From 1ec48300134804ffd2757da1ed1e8d8554c36bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 23/31] fix: fourier_qwe: sum over quadrature points before the
 extrapolation

---
 empymod/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index 275c4a0..2a2f09c 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -655,6 +655,7 @@ def fourier_qwe(fEM, time, freq, ftarg):
     # Carry out QWE for 'well-behaved' intervals
     if np.any(doqwe):
         sEM = tEM_int(np.log(Bx/time[doqwe, None]))*SS
+        sEM = np.sum(np.reshape(sEM, (-1, maxint, nquad)), 2)
         tEM[doqwe], _, tc = qwe(rtol, atol, maxint, sEM, intervals[doqwe, :])
         conv *= tc
 
-- 
2.43.0


From b301bef129b7d2514dd1e467816289d14354775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 24/31] fix: load_data: complex JSON data with infinite, NaN,
 or negative-zero parts

---
 empymod/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/empymod/io.py b/empymod/io.py
index d995794..1b30452 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -244,7 +244,9 @@ def load_data(fname):
         # If complex, re-create complex data.
         data = np.array(inpdat['data'])
         if 'complex' in inpdat['dtype']:
-            data = data[0, ...] + 1j*data[1, ...]
+            real, imag = data
+            data = np.empty(real.shape, dtype=complex)
+            data.real, data.imag = real, imag
 
     # Unknown, throw error
     else:
-- 
2.43.0


From 20d77cfa2cedd954a39a64950ad0812a714b4ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:48 +0000
Subject: [PATCH 25/31] fix: load_filter: failed for inversion output with a
 single shift value

---
 empymod/scripts/fdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index d1a878a..e3c0406 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -557,7 +557,7 @@ def load_filter(name, full=False, path='filters', filter_coeff=None):
                                     '_full.txt' + suffix)
 
             # Read data
-            out = np.loadtxt(fullfile)
+            out = np.loadtxt(fullfile, ndmin=2)
 
         except IOError:
             return filt
-- 
2.43.0


From cbc573f217ca22a4369475cb65b3bb4d5b1610bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 26/31] fix: fdesign.design: a failing transform was ignored if
 another one succeeded

---
 empymod/scripts/fdesign.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index e3c0406..dc13509 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -1321,8 +1321,9 @@ def _get_min_val(spaceshift, *params):
         if i == 0:  # First run, store these values
             imin = dc(imin0)
             min_val = dc(min_val0)
-        else:  # Replace imin, min_val if this one is better
-            if min_val0 > min_val:
+        elif imin != 0:  # Replace imin, min_val if this one is worse; a
+            # transform without any good point makes the filter useless.
+            if imin0 == 0 or min_val0 > min_val:
                 min_val = dc(min_val0)
                 imin = dc(imin0)
 
-- 
2.43.0


From d81bcf5590343050502055ff84a0d120207ee352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 27/31] fix: fdesign.print_result: wrong shift for even filter
 lengths

---
 empymod/scripts/fdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index dc13509..fd39f9e 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -695,7 +695,7 @@ def print_result(filt, full=None):
         shift = full[0][1]
     else:  # Print what we can without full
         spacing = np.log(filt.base[-1] / filt.base[-2])
-        shift = np.log(filt.base[(filt.base.size + 1) // 2 - 1])
+        shift = np.log(filt.base[filt.base.size // 2])
     print(f"   > Spacing       : {spacing:1.10g}")
     print(f"   > Shift         : {shift:1.10g}")
     print(f"   > Base min/max  : {filt.base.min():e} / {filt.base.max():e}")
-- 
2.43.0


From 8c41a94fbe00b0afdce4eb0d920789f25425fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 28/31] fix: analytical: diffusive solutions depended on
 electric permittivities

---
 empymod/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/empymod/model.py b/empymod/model.py
index 3a1c0a0..7e70324 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1123,6 +1123,10 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
                         verb)
     depth, res, aniso, epermH, epermV, mpermH, mpermV, _ = model
 
+    # Permittivities are ignored in the diffusive solutions.
+    if solution in ['dfs', 'dhs', 'dsplit', 'dtetm']:
+        epermH, epermV = 0*epermH, 0*epermV
+
     # Check frequency => get etaH, etaV, zetaH, and zetaV
     # (In the time domain, <freqtime> are times; print nothing for those.)
     frequency = check_frequency(freqtime, res, aniso, epermH, epermV, mpermH,
-- 
2.43.0


From 23977357af292c09c6e7fc9f96ec37ecb99ff5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 29/31] fix: halfspace: static field of switch-off responses
 was approximated at 1e4 s

---
 empymod/kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index 753fc47..6920824 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -962,7 +962,7 @@ def halfspace(off, angle, zsrc, zrec, etaH, etaV, freqtime, ab, signal,
     else:
         time = freqtime
         if signal == -1:  # Calculate DC
-            time = np.r_[time[:, 0], 1e4][:, None]
+            time = np.r_[time[:, 0], np.inf][:, None]
             freqtime = time
         dtype = np.float64
 
@@ -1179,6 +1179,9 @@ def halfspace(off, angle, zsrc, zrec, etaH, etaV, freqtime, ab, signal,
                 cair = airwave(sval, hp, rp, res, fab, delta)
                 air += coeff_dk(k, K)*cair.real/k
 
+            if signal == -1:  # DC (time -> infinity) of the airwave
+                air[-1] = (delta - 3*fab/rp**2)*res/(2*np.pi*rp**3)
+
         else:  # Time-domain impulse response
             thp = mu_0*hp**2/(4*res)
             trh = mu_0*rh**2/(8*res)
-- 
2.43.0


From 3d4050526018819a24c41d8a3a90a9d7e02563b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 30/31] fix: load_data: read text files as UTF-8, as they are
 written

---
 empymod/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/io.py b/empymod/io.py
index 1b30452..0e37e36 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -222,7 +222,7 @@ def load_data(fname):
 
         # Read header for shape and dtype.
         meta = {}
-        with open(fname, "r") as f:
+        with open(fname, "r", encoding="utf-8") as f:
             for line in f:
                 if "data" in line:
                     break
-- 
2.43.0


From d7197aef0d436866dc677bb97864e7814b26cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 31/31] fix: report the centre of every finite bipole (summary
 of sources and receivers)

---
 empymod/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 9798c69..ab56002 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1950,9 +1950,9 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
                 prntinp = tout
             else:
                 print(f"     > intpts      :  {intpts}")
-                prntinp = [np.atleast_1d(tinp[0])[0] + dx/2,
-                           np.atleast_1d(tinp[2])[0] + dy/2,
-                           np.atleast_1d(tinp[4])[0] + dz/2]
+                prntinp = [np.atleast_1d(tinp[0] + dx/2),
+                           np.atleast_1d(tinp[2] + dy/2),
+                           np.atleast_1d(tinp[4] + dz/2)]
 
             # Print dipole length and strength
             _prnt_min_max_val(dl, "     > length  [m] : ", verb)
-- 
2.43.0

