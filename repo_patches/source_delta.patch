From cdad23c0007d7dde27d508bf4e541a4cde047eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:21 +0000
Subject: [PATCH 01/29] fix: use the generic kernels when a tuned window is
 stretched

The tuned NNB/CIC/TSC/PCS code was selected whenever the rounded-up
support matched the native one, ignoring smoothing factors below one.
---
 pmesh/_window_tuned_cic.h | 3 ++-
 pmesh/_window_tuned_nnb.h | 3 ++-
 pmesh/_window_tuned_pcs.h | 3 ++-
 pmesh/_window_tuned_tsc.h | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pmesh/_window_tuned_cic.h b/pmesh/_window_tuned_cic.h
index de10378..5d5deea 100644
--- a/pmesh/_window_tuned_cic.h
+++ b/pmesh/_window_tuned_cic.h
@@ -135,7 +135,8 @@ mkname(_cic_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_cic) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 2) return 0;
+    /* the tuned code has no room for a stretched window */
+    if(window->support != 2 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_cic_tuned_paint1); \
diff --git a/pmesh/_window_tuned_nnb.h b/pmesh/_window_tuned_nnb.h
index 8b3522e..2337da5 100644
--- a/pmesh/_window_tuned_nnb.h
+++ b/pmesh/_window_tuned_nnb.h
@@ -103,7 +103,8 @@ mkname(_nnb_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_nnb) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 1) return 0;
+    /* the tuned code has no room for a stretched window */
+    if(window->support != 1 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_nnb_tuned_paint1); \
diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index eb92dca..c4f996d 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -299,7 +299,8 @@ mkname(_pcs_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_pcs) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 4) return 0;
+    /* the tuned code has no room for a stretched window */
+    if(window->support != 4 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_pcs_tuned_paint1); \
diff --git a/pmesh/_window_tuned_tsc.h b/pmesh/_window_tuned_tsc.h
index f70731b..2378d3f 100644
--- a/pmesh/_window_tuned_tsc.h
+++ b/pmesh/_window_tuned_tsc.h
@@ -188,7 +188,8 @@ mkname(_tsc_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_tsc) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 3) return 0;
+    /* the tuned code has no room for a stretched window */
+    if(window->support != 3 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_tsc_tuned_paint1); \
-- 
2.43.0


From 320559c0e31d1f4f1fbb0e85b5c45d19d34b0f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:21 +0000
Subject: [PATCH 02/29] fix: include the scale of the transform in the tuned
 PCS derivative

---
 pmesh/_window_tuned_pcs.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index c4f996d..519f655 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -29,11 +29,11 @@
                               * (2 + (XYZ[d] - IJK3[d])); \
         } else { \
             V1[d] = + 1.0 / 6.0 * (- 12 * (XYZ[d] - IJK1[d]) \
-                                   + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])); \
+                                   + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])) * painter->scale[d]; \
             V2[d] = - 1.0 / 6.0 * (+ 12 * (XYZ[d] - IJK2[d]) \
-                                   + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])); \
-            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])); \
-            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])); \
+                                   + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])) * painter->scale[d]; \
+            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])) * painter->scale[d]; \
+            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])) * painter->scale[d]; \
         } \
     } \
 \
-- 
2.43.0


From 8b5ec00b9a3b8f9b45f9904eed803aeede8dbf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:13 +0000
Subject: [PATCH 03/29] fix: honour maxlength=0 for the zero mode in the
 invariant index

---
 pmesh/_invariant_imp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_invariant_imp.c b/pmesh/_invariant_imp.c
index af08965..3eaa31c 100644
--- a/pmesh/_invariant_imp.c
+++ b/pmesh/_invariant_imp.c
@@ -67,7 +67,7 @@ ptrdiff_t pmesh_get_invariant_index(
 
     ptrdiff_t shell = absmax(ndim, x);
     /* (0, 0, 0....) */
-    if (shell == 0) return 0;
+    if (shell == 0) return max_length == 0 ? -1 : 0;
 
     ptrdiff_t side = shell * 2 + 1; 
 
-- 
2.43.0


From fd043f48bb662d5a75b72f5e82ffa4fc005b18df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:13 +0000
Subject: [PATCH 04/29] fix: look up degenerate domains by domain, not by the
 rank they are assigned to

---
 pmesh/_domain.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pmesh/_domain.pyx b/pmesh/_domain.pyx
index cd54a08..f303492 100644
--- a/pmesh/_domain.pyx
+++ b/pmesh/_domain.pyx
@@ -78,9 +78,8 @@ def gridnd_fill(
                     while t < 0:
                         t += dims[j]
                 target = target + t * strides[j]
-            target = DomainAssign[target]
-
             if not domain_is_degenerate[target]:
+                target = DomainAssign[target]
                 # build a sorted target_list
                 # bubble sort (for patch_size is small)
                 target_list[k] = target
-- 
2.43.0


From 809314a6b7207c9eefb126405a54cc6b539fc6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:07 +0000
Subject: [PATCH 05/29] fix: cover every domain within a periodic smoothing
 wider than the box

---
 pmesh/domain.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 8768aac..bbc3fa9 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -617,8 +617,11 @@ class GridND(object):
                         l = self._digitize((c - smoothing[j]) % boxsize, self.edges[j], right=False)
                         r = self._digitize((c + smoothing[j]) % boxsize, self.edges[j], right=False)
                         p = self._digitize(c, self.edges[j], right=False)
-                        l = p - (p - l) % self.shape[j] - 1
-                        r = p + (r - p) % self.shape[j]
+                        # count the periods crossed as well, but cover each domain at most once.
+                        l = l + self.shape[j] * ((c - smoothing[j]) // boxsize).astype('intp')
+                        r = r + self.shape[j] * ((c + smoothing[j]) // boxsize).astype('intp')
+                        l = p - (p - l).clip(0, self.shape[j] - 1) - 1
+                        r = p + (r - p).clip(0, self.shape[j] - 1)
                         #print(l, p, r)
                         sil[j, s] = l
                         sir[j, s] = r
-- 
2.43.0


From a17b1c4aef98723a65b80ec3b92d38d74225d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:07 +0000
Subject: [PATCH 06/29] fix: particles just left of the periodic origin belong
 to the first domain

---
 pmesh/domain.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index bbc3fa9..a19dda5 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -47,6 +47,11 @@ def bincountv(x, weights, minlength=None, dtype=None, out=None):
         out[ind] = numpy.bincount(x, weights[ind], minlength=minlength)
     return out
 
+def _wrap(x, boxsize):
+    """ wrap x into [0, boxsize); the remainder of a tiny negative number rounds to boxsize. """
+    x = numpy.remainder(x, boxsize)
+    return numpy.where(x < boxsize, x, 0)
+
 def promote(data, comm):
     data = numpy.asarray(data)
     dtype_root = comm.bcast(data.dtype)
@@ -441,7 +446,7 @@ class GridND(object):
                 chunk = transform(pos[s])
                 for j in range(self.ndim):
                     if periodic:
-                        tmp = numpy.remainder(chunk[:, j], self.edges[j][-1])
+                        tmp = _wrap(chunk[:, j], self.edges[j][-1])
                     else:
                         tmp = chunk[:, j]
                     sil[j, s] = self._digitize(tmp, self.edges[j]) - 1
@@ -552,7 +557,7 @@ class GridND(object):
             s = slice(i, i + chunksize)
             chunk = transform(pos[s])[..., :self.ndim]
             if self.periodic:
-                chunk = numpy.remainder(chunk,  BoxSize)
+                chunk = _wrap(chunk, BoxSize)
             # looping over all primary regions.
             for j in range(len(x0)):
                 r[s] += ((chunk >= x0[j]) & (chunk < x1[j])).all(axis=-1)
-- 
2.43.0


From 37fe659c91001777c758ec3778b8c4ad4bd7fe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:02 +0000
Subject: [PATCH 07/29] fix: uniform decomposition of a flat box on few ranks
 has at least one domain

---
 pmesh/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index a19dda5..7d5c85d 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -364,6 +364,9 @@ class GridND(object):
         shape = numpy.int32(shape)
         shape[shape < 1] = 1
         shape[imax] = 1
+        # flat boxes: the other directions alone may ask for more domains than ranks
+        while numpy.prod(shape) > comm.size:
+            shape[shape.argmax()] -= 1
         shape[imax] = comm.size // numpy.prod(shape)
         assert numpy.prod(shape) <= comm.size
 
-- 
2.43.0


From f2432c90b8a943e72fee0d4c389860198733a990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 08/29] fix: whitenoise fills blocks that hold only negative
 modes of the last axis

---
 pmesh/_whitenoise_generics.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 8e3eac1..6f19d0a 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -163,6 +163,9 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                     }
 
                     ptrdiff_t iabs[3] = {i, j, k};
+                    if(sign == -1) {
+                        iabs[2] = self->Nmesh[2] - k;
+                    }
 
                     /* mode is not there, skip it */
                     if(!mkname(_has_mode)(self, iabs)) {
@@ -193,7 +196,6 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                     */
 
                     if(sign == -1) {
-                        iabs[2] = self->Nmesh[2] - k;
                         im = - im;
                     }
 
-- 
2.43.0


From b6a053e937ca500dd3a766472030720b88d6cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 09/29] fix: whitenoise seeds every column of a mesh that is
 not square

---
 pmesh/_whitenoise_generics.h | 11 +++++++----
 pmesh/_whitenoise_imp.c      |  3 +++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 6f19d0a..d94aed1 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -73,7 +73,10 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_ranlxd1);
     gsl_rng_set(rng, seed);
 
-    for(i = 0; i < self->Nmesh[0] / 2; i++) {
+    /* SETSEED ignores the columns that are not on the mesh, if it is not square */
+    ptrdiff_t Nmax = self->Nmesh[0] > self->Nmesh[1] ? self->Nmesh[0] : self->Nmesh[1];
+
+    for(i = 0; i < Nmax / 2; i++) {
         for(j = 0; j < i; j++)
             SETSEED(self, i, j, rng);
         for(j = 0; j < i + 1; j++)
@@ -81,15 +84,15 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
         for(j = 0; j < i; j++)
             SETSEED(self, self->Nmesh[0] - 1 - i, j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, i, rng);
+            SETSEED(self, self->Nmesh[0] - 1 - j, i, rng);
         for(j = 0; j < i; j++)
             SETSEED(self, i, self->Nmesh[1] - 1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, j, self->Nmesh[1] - 1 - i, rng);
         for(j = 0; j < i; j++)
             SETSEED(self, self->Nmesh[0] - 1 - i, self->Nmesh[1] - 1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, self->Nmesh[0] - 1 - j, self->Nmesh[1] - 1 - i, rng);
     }
     gsl_rng_free(rng);
 
diff --git a/pmesh/_whitenoise_imp.c b/pmesh/_whitenoise_imp.c
index c47324b..1a774f4 100644
--- a/pmesh/_whitenoise_imp.c
+++ b/pmesh/_whitenoise_imp.c
@@ -31,6 +31,9 @@ SETSEED(PMeshWhiteNoiseGenerator * self, int i, int j, gsl_rng * rng)
 { 
     unsigned int seed = 0x7fffffff * gsl_rng_uniform(rng); 
 
+    if(i < 0 || i >= self->Nmesh[0]) return;
+    if(j < 0 || j >= self->Nmesh[1]) return;
+
     int ii[2] = {i, (self->Nmesh[0] - i) % self->Nmesh[0]};
     int jj[2] = {j, (self->Nmesh[1] - j) % self->Nmesh[1]};
     int d1, d2;
-- 
2.43.0


From af333c43cdae649a8aee3a2278846c6637573c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 10/29] fix: whitenoise of a mesh with an odd number of cells
 is hermitian

---
 pmesh/_whitenoise_generics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index d94aed1..700509d 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -76,7 +76,7 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
     /* SETSEED ignores the columns that are not on the mesh, if it is not square */
     ptrdiff_t Nmax = self->Nmesh[0] > self->Nmesh[1] ? self->Nmesh[0] : self->Nmesh[1];
 
-    for(i = 0; i < Nmax / 2; i++) {
+    for(i = 0; i < (Nmax + 1) / 2; i++) {
         for(j = 0; j < i; j++)
             SETSEED(self, i, j, rng);
         for(j = 0; j < i + 1; j++)
@@ -152,7 +152,7 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                 gsl_rng_set(this_rng, seed_this);
 
                 for(k = 0; k <= self->Nmesh[2] / 2; k ++) {
-                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || k == self->Nmesh[2] / 2);
+                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || 2 * k == self->Nmesh[2]);
 
                     double ampl, phase;
                     if(use_conj) {
-- 
2.43.0


From 438fb0c26758bccaea68b7c66e0b29fefc98772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:37 +0000
Subject: [PATCH 11/29] fix: coordinates of a mesh with an odd number of cells
 stay within half the mesh

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 1ebc8c7..8e6f081 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1188,7 +1188,7 @@ def _init_i_coords(partition, Nmesh, BoxSize, dtype):
 
         ri = numpy.arange(t[d], dtype=dtype) + partition.local_i_start[d]
 
-        ri[ri >= Nmesh[d] // 2] -= Nmesh[d]
+        ri[ri >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         xi = ri * BoxSize[d] / Nmesh[d]
 
@@ -1212,7 +1212,7 @@ def _init_o_coords(partition, Nmesh, BoxSize, dtype):
 
         wi = numpy.arange(s[d], dtype=dtype) + partition.local_o_start[d]
 
-        wi[wi >= Nmesh[d] // 2] -= Nmesh[d]
+        wi[wi >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         wi *= (2 * numpy.pi / Nmesh[d])
         ki = wi * Nmesh[d] / BoxSize[d]
-- 
2.43.0


From e35dc11d9cd8fbfe8d0c24a2fcf445b1ece8ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 12/29] fix: ranks without cells do not take the domain of the
 first rank

---
 pmesh/pm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 8e6f081..8576d71 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1451,7 +1451,12 @@ class ParticleMesh(object):
         size = numpy.prod(shape)
         ilocal = tuple(numpy.flatnonzero(iedges == istart)[0] for istart, iedges in zip(partition.local_i_start, partition.i_edges))
         ilocal = numpy.ravel_multi_index(ilocal, shape, mode='raise', order='C')
+        if any(partition.local_i_shape == 0):
+            # this rank has no cells; pfft sets its start to zero
+            ilocal = -1
         ilocals = numpy.array(self.comm.allgather(ilocal))
+        # the ranks without cells take the domains without cells
+        ilocals[ilocals == -1] = numpy.setdiff1d(numpy.arange(size), ilocals)[:sum(ilocals == -1)]
         DomainAssign = numpy.empty(size, dtype='int32')
         for irank, ilocal in enumerate(ilocals):
             start = ilocal * size // self.comm.size
-- 
2.43.0


From f9991b6278cac743f0a64cac99f39aa3f167c808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 13/29] fix: weigh the last mode of a compressed axis with an
 odd number of cells twice

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 8576d71..a8ddb15 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -913,7 +913,7 @@ class BaseComplexField(Field):
         y = y.copy()
         # if a conjugate is not stored and not self, increase the weight
         # because we shall add it.
-        mask = (i[-1] != 0) & (i[-1] != self.Nmesh[-1] // 2)
+        mask = (i[-1] != 0) & (2 * i[-1] != self.Nmesh[-1])
         y += mask * y
         return y
 
-- 
2.43.0


From 48e994750c7afa6b8f70bc8186e295b09329b336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 14/29] fix: circular frequencies passed by apply have a norm
 like every other kind

---
 pmesh/pm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index a8ddb15..9983ada 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -641,7 +641,9 @@ class Field(NDArrayLike):
                 k = x
                 oslab[...] = func(k, islab)
             elif kind == 'circular':
-                w = [ ki * L / N for ki, L, N in zip(x, self.BoxSize, self.Nmesh)]
+                w = xslab([ ki * L / N for ki, L, N in zip(x, self.BoxSize, self.Nmesh)])
+                w.BoxSize = x.BoxSize
+                w.Nmesh = x.Nmesh
                 oslab[...] = func(w, islab)
             else:
                 raise ValueError("unknown kind of apply function.")
-- 
2.43.0


From b4b28a30f7051f8c12b6c7d313915d01e1eca2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 15/29] fix: preview transposes when all axes are kept in
 another order

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 9983ada..1455dcf 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -609,7 +609,7 @@ class Field(NDArrayLike):
             removeaxes = tuple(range(len(all_axes) - len(removeaxes), len(all_axes)))
             result[local_slice] += out.transpose(all_axes).sum(axis=removeaxes)
         else:
-            result[local_slice] += out
+            result[local_slice] += out.transpose(axes)
 
         self.pm.comm.Allreduce(MPI.IN_PLACE, result)
         return result
-- 
2.43.0


From 1fd465b7ab42d0e80f37115850d7120c3305c75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:47 +0000
Subject: [PATCH 16/29] fix: inner product of a real field with an array

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 1455dcf..4c85b97 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -212,7 +212,7 @@ class Field(NDArrayLike):
             if not isinstance(other, _gettype(self)):
                 raise TypeError("type of two operands of cdot must be the same type")
         else:
-            assert all(numpy.shape(other) == self.shape)
+            assert numpy.shape(other) == self.shape
 
     def copy(self):
         return self.pm.create(_gettype(self), value=self.value)
-- 
2.43.0


From 63900cc7b7d8a82d1de6ccaff9c9408228d1e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 17/29] fix: resample meshes with an odd number of cells

---
 pmesh/pm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 4c85b97..8aa3270 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -531,13 +531,13 @@ class Field(NDArrayLike):
             # FIXME: the nyquist is messy due to hermitian constraints
             # let's do not touch them till we know they are important.
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
+                 [ 2 * ii == n
                    for ii, n in zip(i, complex.Nmesh)])
             slab[mask] = 0
 
             # also remove the nyquist of the input
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
+                 [ 2 * ii == n
                    for ii, n in zip(i, self.Nmesh)])
             slab[mask] = 0
 
@@ -1141,8 +1141,11 @@ def reindex(Nsrc, Ndest):
 
     """
     reindex = numpy.arange(Ndest)
-    reindex[Ndest // 2 + 1:] = numpy.arange(Nsrc - Ndest // 2 + 1, Nsrc, 1)
-    reindex[Nsrc // 2 + 1: Ndest -Nsrc //2 + 1] = -1
+    # number of negative frequencies besides the nyquist
+    ndest = (Ndest - 1) // 2
+    nsrc = (Nsrc - 1) // 2
+    reindex[Ndest - ndest:] = numpy.arange(Nsrc - ndest, Nsrc, 1)
+    reindex[Nsrc // 2 + 1: Ndest - nsrc] = -1
     return reindex
 
 def exchange(layout, value):
-- 
2.43.0


From c6f4dacc6223053c7ca994461fc2c87cabb39c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 18/29] fix: resample keeps the imaginary part of the mean of a
 complex mesh

---
 pmesh/pm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 8aa3270..fb4dc5d 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -525,7 +525,8 @@ class Field(NDArrayLike):
             mask = functools.reduce(numpy.bitwise_and,
                  [(n - ii) % n == ii
                     for ii, n in zip(i, complex.Nmesh)])
-            slab.imag[mask] = 0
+            if out.pm.dtype.kind != 'c':
+                slab.imag[mask] = 0
 
             # remove the nyquist of the output
             # FIXME: the nyquist is messy due to hermitian constraints
-- 
2.43.0


From 8c6bf9ad89af34ffcd1c7a68fb3b22c92feb46a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 19/29] fix: resample into an untransposed complex field

---
 pmesh/pm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index fb4dc5d..b460026 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -545,6 +545,9 @@ class Field(NDArrayLike):
         if isinstance(out, RealField):
             complex.c2r(out)
 
+        if isinstance(out, UntransposedComplexField):
+            complex.cast(type=UntransposedComplexField, out=out)
+
         return out
 
     def preview(self, Nmesh=None, axes=None, resampler=None, method=None):
-- 
2.43.0


From 93703b0aeaead132fb4baafd72a2e0361771bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 20/29] fix: upsample with windows wider than 1.6 cells on
 several ranks

---
 pmesh/pm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index b460026..c797273 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1982,7 +1982,6 @@ class ParticleMesh(object):
                     period=source.Nmesh)
 
         layout = source.pm.decompose(q, smoothing=resampler, transform=transform)
-        layout = source.pm.decompose(q, smoothing=1.6, transform=transform)
 
         f = source.readout(q, resampler=resampler, layout=layout, transform=transform)
 
-- 
2.43.0


From 4f63fcf6a92d05cf7c6b20e5d5a72ab665e448ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 21/29] fix: resampling to a slightly coarser mesh does not
 remove a negative mode

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index c797273..08ed616 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -538,8 +538,8 @@ class Field(NDArrayLike):
 
             # also remove the nyquist of the input
             mask = functools.reduce(numpy.bitwise_or,
-                 [ 2 * ii == n
-                   for ii, n in zip(i, self.Nmesh)])
+                 [ (2 * ii == n) & (n < m)
+                   for ii, n, m in zip(i, self.Nmesh, complex.Nmesh)])
             slab[mask] = 0
 
         if isinstance(out, RealField):
-- 
2.43.0


From 242bbb02c3573332bb49ae9aa1a62fe1baa012dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 22/29] fix: readout_jvp of a gradient

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 08ed616..00fe1c8 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -860,7 +860,7 @@ class RealField(Field):
                 jvp[...] += self.readout(pos, resampler=resampler, transform=transform, gradient=d, layout=layout) * v_pos[..., d]
 
         if v_self is not None:
-            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=None, layout=layout)
+            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=gradient, layout=layout)
 
         return jvp
 
-- 
2.43.0


From b033ba6abde118aa5a36b1e9ecc25adb3e9bcf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 23/29] fix: Laplace transfer function multiplies every row by
 its own factor

---
 pmesh/transfer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index c23a503..b38f9f5 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -187,7 +187,7 @@ class TransferFunction:
         """ 
             Take the Laplacian k-space: complex *= -w2
 
-            where this function performs only the -w **-2 part.
+            where this function performs only the -w ** 2 part.
 
             Note that k = w * Nmesh / BoxSize, thus the usual laplacian is
            
@@ -200,9 +200,7 @@ class TransferFunction:
             w2 = w[0][row] ** 2
             for wi in w[1:]:
                 w2 = w2 + wi[0] ** 2
-            w2[w2 == 0] = numpy.inf
-            w2 *= -1
-        complex[:] *= w2
+            complex[row] *= -w2
 
     @staticmethod
     def Poisson(pm, complex):
-- 
2.43.0


From 0b5ee7b1cb1500ad2386222abc717fd23edc29f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 24/29] fix: line integral convolution paints the integral

---
 pmesh/lic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index a8c4df2..67e52e8 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -75,4 +75,4 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
 
             s += ds
 
-    return pm.paint(Q, f, resampler='nearest')
+    return pm.paint(Q, mass=f, resampler='nearest')
-- 
2.43.0


From 0bf5e43f04e84fbc33fcfb6cdff03ed09630d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 25/29] fix: line integral convolution on ranks without cells,
 or with faster flow on another rank

---
 pmesh/lic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index 67e52e8..58ccdbf 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -58,7 +58,9 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
     resampler = FindResampler(resampler)
 
     f = texture.readout(Q, resampler='nearest')
-    vmax = max(abs(v[...]).max() for v in vectors)
+    # the fastest move on any rank, in mesh units. Ranks may hold no cells.
+    vmax = max(abs(v[...]).max() if v.size > 0 else 0.0 for v in vectors)
+    vmax = max(pm.comm.allgather(vmax)) * (pm.Nmesh / pm.BoxSize).max()
 
     for sign in [-1, +1]:
         x = Q.copy()
-- 
2.43.0


From b728250a1237730557a938ede14cdd0bd241d1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 26/29] fix: legacy numba painting onto a mesh that is not C
 contiguous

---
 pmesh/_cic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pmesh/_cic.py b/pmesh/_cic.py
index 69fa714..6488d32 100644
--- a/pmesh/_cic.py
+++ b/pmesh/_cic.py
@@ -59,6 +59,9 @@ def driver(pos, mesh, weights, mode, period, transform,
         p[...] = period
         period = p
 
+    # a copy, if mesh is not C contiguous
+    meshflat = mesh.ravel()
+
     for start in range(0, Np, chunksize):
         chunk = slice(start, start+chunksize)
         mypos = transform(pos[chunk])
@@ -67,8 +70,10 @@ def driver(pos, mesh, weights, mode, period, transform,
             wchunk[:] = weights
         else:
             wchunk = weights[chunk]
-        if callback(mypos, mesh, mesh.ravel(), wchunk, period) \
-                and mode == "raise":
+        outbound = callback(mypos, mesh, meshflat, wchunk, period)
+        if callback is paint_some and not mesh.flags['C_CONTIGUOUS']:
+            mesh[...] = meshflat.reshape(mesh.shape)
+        if outbound and mode == "raise":
            raise ValueError("Some points are out of boundary")
     return mesh
 @numba.jit(nopython=True)
-- 
2.43.0


From c1a7989b10847002a45400546b671bea7212e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:21 +0000
Subject: [PATCH 27/29] fix: cnorm with a metric does not modify the field

norm() may return a view of the field (e.g. x.real); weigh a copy of it.
---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 00fe1c8..036a54d 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -940,7 +940,7 @@ class BaseComplexField(Field):
             y = norm(y)
             if metric is not None:
                 k = k.normp(p=2) ** 0.5
-                y *= metric(k)
+                y = y * metric(k)
             return y
 
         return self.pm.comm.allreduce(self\
-- 
2.43.0


From a82ed878ed2efcf49885d3a2adbefd64b4993e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:12 +0000
Subject: [PATCH 28/29] fix: gather and exchange send items of Fortran ordered
 arrays in order

astype keeps the memory layout, and the messages are cut from the memory in C order.
---
 pmesh/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 7d5c85d..bc27bf7 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -55,7 +55,7 @@ def _wrap(x, boxsize):
 def promote(data, comm):
     data = numpy.asarray(data)
     dtype_root = comm.bcast(data.dtype)
-    data = data.astype(dtype_root)
+    data = data.astype(dtype_root, order='C')
     shape_root = comm.bcast(data.shape)
     if shape_root[1:] != data.shape[1:]:
         raise ValueError('the shape of the data does not match across ranks.')
-- 
2.43.0


From 464d51f3a3e3e9b43f2f60d7e5c92f091372f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:19 +0000
Subject: [PATCH 29/29] fix: signed coordinates of the legacy ParticleMesh on
 odd meshes

---
 pmesh/particlemesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/particlemesh.py b/pmesh/particlemesh.py
index 1d683b7..bf00bdc 100644
--- a/pmesh/particlemesh.py
+++ b/pmesh/particlemesh.py
@@ -136,8 +136,8 @@ class ParticleMesh(object):
             wi = numpy.arange(s[d], dtype='f4') + self.partition.local_o_start[d] 
             ri = numpy.arange(t[d], dtype='f4') + self.partition.local_i_start[d] 
 
-            wi[wi >= self.Nmesh // 2] -= self.Nmesh
-            ri[ri >= self.Nmesh // 2] -= self.Nmesh
+            wi[wi >= (self.Nmesh + 1) // 2] -= self.Nmesh
+            ri[ri >= (self.Nmesh + 1) // 2] -= self.Nmesh
 
             wi *= (2 * numpy.pi / self.Nmesh)
             ki = wi * self.Nmesh / self.BoxSize[d]
-- 
2.43.0

