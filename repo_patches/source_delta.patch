From 1de4fad61dcf4efd09d5706e7a9c6b9dfe942a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 01/17] fix: single-origin sampling takes the displacement over
 the requested interval

The observation was picked by the position of the interval in the list of
intervals, so with e.g. min_dt=20 the window of 20 steps was given the
displacement after one step.
---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 3543f7a..61ae2e9 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -200,7 +200,7 @@ class Parser:
                               "https://kinisi.readthedocs.io/en/latest/memory_limit.html).")
         for i, time_interval in enumerate(iterator):
             if self.sampling == 'single-origin':
-                disp = drift_corrected[self.indices, i:i + 1]
+                disp = drift_corrected[self.indices, time_interval - 1:time_interval]
                 if np.multiply(*disp[:, ::time_interval].shape[:2]) <= 1:
                     continue
                 disp_3d.append(disp)
-- 
2.43.0


From 2a08b5f11830571bd56967dcf976df38f50a6310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 02/17] fix: framework_indices can be used together with
 specie_indices

The unselected sites were appended to a numpy array (AttributeError) even
when the framework had been given explicitly.
---
 kinisi/parser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 61ae2e9..143d685 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -756,9 +756,8 @@ def _get_framework(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
         drift_indices = np.array(framework_indices) - 1
     else:
         drift_indices = []
-
-    for i, site in enumerate(structure):
-        if i not in indices:
-            drift_indices.append(i)
+        for i, site in enumerate(structure):
+            if i not in indices:
+                drift_indices.append(i)
 
     return indices, drift_indices
-- 
2.43.0


From d24bf2918b029b5e2a9d7c3f98f7375e2564254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 03/17] fix: an empty framework_indices means no drift
 correction for molecules too

np.array([]) is a float array and cannot be used as an index (IndexError).
---
 kinisi/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 143d685..b52e926 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -699,7 +699,7 @@ def _get_molecules(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
     n_molecules = indices.shape[0]
 
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = np.array(framework_indices, dtype=int) - 1
     else:
         for i, site in enumerate(structure):
             if i not in indices:
@@ -753,7 +753,7 @@ def _get_framework(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
         diffusion and indices of framework atoms. 
     """
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = np.array(framework_indices, dtype=int) - 1
     else:
         drift_indices = []
         for i, site in enumerate(structure):
-- 
2.43.0


From 5a32a7a61f34fbf50248a1d1f1565df463b22ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 04/17] fix: ASEParser accounts for sub_sample_traj in the time
 between frames

---
 kinisi/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index b52e926..1628db1 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -288,8 +288,8 @@ class ASEParser(Parser):
 
         self.coords_check = coords[0]
 
-        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step, step_skip,
-                         min_dt, max_dt, n_steps, spacing, sampling, memory_limit, progress)
+        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step,
+                         step_skip * sub_sample_traj, min_dt, max_dt, n_steps, spacing, sampling, memory_limit, progress)
         self._volume = structure.get_volume()
 
     @staticmethod
-- 
2.43.0


From a74200864547e7dcaf45d7d92003da504fd61ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 05/17] fix: rounding error no longer shortens min_dt and
 max_dt by one step

E.g. 29 steps of 0.005 ps: int((29 * 0.005) / 0.005) is 28, so the longest
interval was lost and the shortest repeated; min_dt=0.3 with 0.1 ps steps
started at two steps.
---
 kinisi/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 1628db1..70d1595 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -81,7 +81,7 @@ class Parser:
             self.max_dt = drift_corrected.shape[1] * (self.step_skip * self.time_step)
         if self.min_dt is None:
             self.min_dt = self.step_skip * self.time_step
-        min_dt_int = int(self.min_dt / (self.step_skip * self.time_step))
+        min_dt_int = int(np.round(self.min_dt / (self.step_skip * self.time_step), 6))
         if min_dt_int >= drift_corrected.shape[1]:
             raise ValueError('The passed min_dt is greater than or equal to the maximum simulation length.')
         if n_steps > (drift_corrected.shape[1] - min_dt_int) + 1:
@@ -156,8 +156,8 @@ class Parser:
 
         :return: Smoothed time intervals.
         """
-        min_dt = int(self.min_dt / (self.step_skip * self.time_step))
-        max_dt = int(self.max_dt / (self.step_skip * self.time_step))
+        min_dt = int(np.round(self.min_dt / (self.step_skip * self.time_step), 6))
+        max_dt = int(np.round(self.max_dt / (self.step_skip * self.time_step), 6))
         if min_dt == 0:
             min_dt = 1
         if spacing == 'linear':
-- 
2.43.0


From cba9631c0713825488e4d564169adec39df10a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 06/17] fix: linearly spaced time intervals are never repeated

With max_dt given (or min_dt=0) there can be fewer whole intervals than
n_steps; the repeats made the covariance matrix singular.
---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 70d1595..ec12d7a 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -161,7 +161,7 @@ class Parser:
         if min_dt == 0:
             min_dt = 1
         if spacing == 'linear':
-            return np.linspace(min_dt, max_dt, n_steps, dtype=int)
+            return np.unique(np.linspace(min_dt, max_dt, n_steps, dtype=int))
         elif spacing == 'logarithmic':
             return np.unique(np.geomspace(min_dt, max_dt, n_steps, dtype=int))
         else:
-- 
2.43.0


From 902828307404666abd0bc9b6200a94114dd09d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 07/17] fix: sub_sample_dt sub-samples the number of
 observations as well

The variances of a sub-sampled set of intervals were scaled with the number
of observations of other intervals.
---
 kinisi/diffusion.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index e123f40..1b14b89 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -68,7 +68,7 @@ class Bootstrap:
         self._n_bootstrap = np.array([])
         self._s_bootstrap = np.array([])
         self._v_bootstrap = np.array([])
-        self._n_o = n_o
+        self._n_o = n_o[::sub_sample_dt]
         self._ngp = np.array([])
         self._sub_sample_dt = sub_sample_dt
         self._dimension = dimension
@@ -576,7 +576,7 @@ class MSDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(d_squared, n_o[i], n_resamples, max_resamples, alpha, random_state)
+                distro = self.sample_until_normal(d_squared, self._n_o[i], n_resamples, max_resamples, alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
                 self._v_bootstrap = np.append(self._v_bootstrap, np.var(distro.samples, ddof=1))
@@ -595,7 +595,7 @@ class MSDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, d_squared.mean())
-                self._v = np.append(self._v, np.var(d_squared, ddof=1) / n_o[i])
+                self._v = np.append(self._v, np.var(d_squared, ddof=1) / self._n_o[i])
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared))
             self._dt = np.append(self._dt, self._delta_t[i])
@@ -661,7 +661,7 @@ class MSTDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(coll_motion, n_o[i] / d_squared.shape[0], n_resamples, max_resamples,
+                distro = self.sample_until_normal(coll_motion, self._n_o[i] / d_squared.shape[0], n_resamples, max_resamples,
                                                   alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
@@ -681,7 +681,7 @@ class MSTDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, coll_motion.mean())
-                self._v = np.append(self._v, np.var(coll_motion, ddof=1) / (n_o[i] / d_squared.shape[0]))
+                self._v = np.append(self._v, np.var(coll_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
             self._dt = np.append(self._dt, self._delta_t[i])
@@ -753,7 +753,7 @@ class MSCDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(sq_chg_motion, n_o[i] / d_squared.shape[0], n_resamples,
+                distro = self.sample_until_normal(sq_chg_motion, self._n_o[i] / d_squared.shape[0], n_resamples,
                                                   max_resamples, alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
@@ -773,7 +773,7 @@ class MSCDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, sq_chg_motion.mean())
-                self._v = np.append(self._v, np.var(sq_chg_motion, ddof=1) / (n_o[i] / d_squared.shape[0]))
+                self._v = np.append(self._v, np.var(sq_chg_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
             self._dt = np.append(self._dt, self._delta_t[i])
-- 
2.43.0


From 3164513d8c46968c1e47dd2b26e9e6d272eae454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 08/17] fix: Bootstrap.from_dict does not sub-sample the stored
 displacements again

The dictionary holds the already sub-sampled data. Also lets MSCDBootstrap,
whose constructor takes the charge as well, be made from a dictionary.
---
 kinisi/diffusion.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 1b14b89..4cd7e15 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -141,11 +141,13 @@ class Bootstrap:
 
         :return: New :py:class`Bootstrap` object.
         """
-        boot = cls(my_dict['delta_t'],
-                   my_dict['displacements'],
-                   my_dict['n_o'],
-                   sub_sample_dt=my_dict['sub_sample_dt'],
-                   dimension=my_dict['dimension'])
+        boot = cls.__new__(cls)
+        Bootstrap.__init__(boot,
+                           my_dict['delta_t'],
+                           my_dict['displacements'],
+                           my_dict['n_o'],
+                           dimension=my_dict['dimension'])
+        boot._sub_sample_dt = my_dict['sub_sample_dt']
         boot._max_obs = my_dict['max_obs']
         boot._euclidian_displacements = [Distribution.from_dict(d) for d in my_dict['euclidian_displacements']]
         boot._dt = my_dict['dt']
-- 
2.43.0


From 555428e41a8e7a788b19bf28f0d3ed260529b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 09/17] fix: MSCDBootstrap honours dimension

The charge displacement was always summed over x, y and z, while the
conductivity is divided by the number of requested dimensions.
---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 4cd7e15..af22022 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -750,7 +750,7 @@ class MSCDBootstrap(Bootstrap):
             disp_slice = self._displacements[i][:, :, self._slice].reshape(self._displacements[i].shape[0],
                                                                            self._displacements[i].shape[1], self.dims)
             d_squared = np.sum(disp_slice**2, axis=-1)
-            sq_chg_motion = np.sum(np.sum((ionic_charge * self._displacements[i].T).T, axis=0)**2, axis=-1)
+            sq_chg_motion = np.sum(np.sum((ionic_charge * disp_slice.T).T, axis=0)**2, axis=-1)
             if sq_chg_motion.size <= 1:
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
-- 
2.43.0


From 8e6ef32e07b31c8c9527864809705a4b352003af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 10/17] fix: minimum_eigenvalue_method uses the largest
 eigenvalue

numpy.linalg.eig does not order the eigenvalues, so the first one may not be
the largest and the condition number could exceed cond_max.
---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index af22022..7f4b537 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -885,6 +885,6 @@ def minimum_eigenvalue_method(matrix: np.ndarray, cond_max=1e16) -> np.ndarray:
     eigenthings = np.linalg.eig(matrix)
     eigenvalues = eigenthings.eigenvalues
     new_eigenvalues = np.copy(eigenvalues)
-    T = eigenvalues[0] / cond_max
+    T = np.max(eigenvalues) / cond_max
     new_eigenvalues[np.where(new_eigenvalues < T)] = T
     return np.real(eigenthings.eigenvectors @ np.diag(new_eigenvalues) @ eigenthings.eigenvectors.T)
-- 
2.43.0


From daadd298bbaeb5ba86ed7e73b3c10cb1f2316ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 11/17] fix: posterior predictive and distribution work when no
 intercept was fitted

---
 kinisi/analyzer.py  | 5 ++++-
 kinisi/diffusion.py | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index aad495e..ace2c3d 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -309,7 +309,10 @@ class Analyzer:
         :return: A distribution of samples for the linear relationship that can be used for easy
         plotting of credible intervals.
         """
-        return self._diff.gradient.samples * self.dt[:, np.newaxis] + self._diff.intercept.samples
+        line = self._diff.gradient.samples * self.dt[:, np.newaxis]
+        if self._diff.intercept is not None:
+            line = line + self._diff.intercept.samples
+        return line
 
     @property
     def dt(self) -> np.ndarray:
diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 7f4b537..beb40ef 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -517,7 +517,9 @@ class Bootstrap:
         else:
             iterator = samples_to_draw
         for i, n in iterator:
-            mu = self.gradient.samples[n] * self._dt[diff_regime:] + self.intercept.samples[n]
+            mu = self.gradient.samples[n] * self._dt[diff_regime:]
+            if self.intercept is not None:
+                mu = mu + self.intercept.samples[n]
             mv = multivariate_normal(mean=mu, cov=self._covariance_matrix, allow_singular=True)
             ppd[i] = mv.rvs(n_predictive_samples)
         return ppd.reshape(-1, self._dt[diff_regime:].size)
-- 
2.43.0


From f0e8066922d3d7051fd152f67c5c41e36a06ee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 12/17] fix: SuperArrhenius default bounds are not shared
 between objects

The default list was modified in place, so every later object used the first
object's lowest temperature as the limit of T0 (and a tuple was rejected).
---
 kinisi/arrhenius.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/arrhenius.py b/kinisi/arrhenius.py
index 67a9af9..3006b2c 100644
--- a/kinisi/arrhenius.py
+++ b/kinisi/arrhenius.py
@@ -116,7 +116,7 @@ class SuperArrhenius(Relationship):
                                                                                                  (0, None)],
                  diffusion_error: np.ndarray = None):
         if bounds[2][1] is None:
-            bounds[2] = (0, temperature[0])
+            bounds = list(bounds[:2]) + [(0, temperature[0])]
         super().__init__(super_arrhenius, temperature, diffusion, bounds, ordinate_error=diffusion_error)
 
     @property
-- 
2.43.0


From a45122e0a2d653af26cd82bf5e9505688658c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 13/17] fix: save and load only strip a file extension

Everything after the last dot of the path was dropped, directories included:
./run was saved as .hdf, and v1.0/run as v1.hdf.
---
 kinisi/analyzer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index ace2c3d..69c1a7f 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -6,6 +6,7 @@ This module contains the base class for the different :py:class:`Analyzer` objec
 # Distributed under the terms of the MIT License
 # author: Andrew R. McCluskey (arm61)
 
+from os.path import splitext
 from typing import Union, List
 import numpy as np
 from kinisi.parser import MDAnalysisParser, PymatgenParser, ASEParser
@@ -36,7 +37,7 @@ class Analyzer:
 
         :param filename: Name for the file, no file extension is required and if one if given it is replaced with .hdf.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         my_dict = self.to_dict()
         try:
             import h5py
@@ -57,7 +58,7 @@ class Analyzer:
 
         :return: An :py:class:`Analyzer` object from the file.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         try:
             import h5py
         except ModuleNotFoundError:  # pragma: no cover
-- 
2.43.0


From d98bd99307c010a7e50705efa2995256fdc207b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 14/17] fix: an analyzer that was loaded from a file can be
 saved again

Scalars come back from HDF5 as numpy scalars, which were refused.
---
 kinisi/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 69c1a7f..ee76e3d 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -372,11 +372,11 @@ def _dict_to_group(h5file: 'h5py._hl.files.File', path: str, my_dict: dict):
     :param my_dict: Dict to make datasets from.
     """
     for key, value in my_dict.items():
-        if isinstance(value, (np.ndarray, int, float, str, bytes)):
+        if isinstance(value, (np.ndarray, np.generic, int, float, str, bytes)):
             h5file[path + key] = value
         elif isinstance(value, list):
             for i, d in enumerate(value):
-                if isinstance(d, (np.ndarray, int, float, str, bytes)):
+                if isinstance(d, (np.ndarray, np.generic, int, float, str, bytes)):
                     h5file[path + key + f'/list{i}'] = d
                 elif isinstance(d, dict):
                     _dict_to_group(h5file, path + key + f'/list{i}' + '/', d)
-- 
2.43.0


From bb15817c06d4d349fc61451f08e521e1c0895626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:54 +0000
Subject: [PATCH 15/17] fix: reconditioning keeps symmetric matrices with
 repeated eigenvalues

np.linalg.eig does not return orthogonal eigenvectors for a repeated
eigenvalue, so V diag(w) V^T was not the matrix (e.g. I + ones(3, 3)).
---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index beb40ef..45901da 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -884,7 +884,7 @@ def minimum_eigenvalue_method(matrix: np.ndarray, cond_max=1e16) -> np.ndarray:
 
     :return: Reconditioned matrix.
     """
-    eigenthings = np.linalg.eig(matrix)
+    eigenthings = np.linalg.eigh(matrix)
     eigenvalues = eigenthings.eigenvalues
     new_eigenvalues = np.copy(eigenvalues)
     T = np.max(eigenvalues) / cond_max
-- 
2.43.0


From 8199fecd366bab5ac8d0174d82db40e40ca33787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:03 +0000
Subject: [PATCH 16/17] fix: a tuple of framework_indices is a list of atoms,
 not one numpy index

---
 kinisi/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index ec12d7a..9f401e9 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -351,7 +351,7 @@ class ASEParser(Parser):
             raise ValueError("There are no species selected to calculate the mean-squared displacement of.")
 
         if isinstance(framework_indices, (list, tuple)):
-            drift_indices = framework_indices
+            drift_indices = list(framework_indices)
 
         return indices, drift_indices
 
@@ -503,7 +503,7 @@ class PymatgenParser(Parser):
             raise ValueError("There are no species selected to calculate the mean-squared displacement of.")
 
         if isinstance(framework_indices, (list, tuple)):
-            drift_indices = framework_indices
+            drift_indices = list(framework_indices)
 
         return indices, drift_indices
 
@@ -666,7 +666,7 @@ class MDAnalysisParser(Parser):
             raise ValueError("There are no species selected to calculate the mean-squared displacement of.")
 
         if isinstance(framework_indices, (list, tuple)):
-            drift_indices = framework_indices
+            drift_indices = list(framework_indices)
 
         return indices, drift_indices
 
-- 
2.43.0


From f0af7e2a82a2611d98a0b7e9bec5693892eea38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:31 +0000
Subject: [PATCH 17/17] fix: rounding error no longer shortens logarithmic time
 intervals by one step

np.geomspace(19, 19, 4, dtype=int) contains 18, below the requested minimum.
---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 9f401e9..378421f 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -163,7 +163,7 @@ class Parser:
         if spacing == 'linear':
             return np.unique(np.linspace(min_dt, max_dt, n_steps, dtype=int))
         elif spacing == 'logarithmic':
-            return np.unique(np.geomspace(min_dt, max_dt, n_steps, dtype=int))
+            return np.unique(np.round(np.geomspace(min_dt, max_dt, n_steps), 6).astype(int))
         else:
             raise ValueError("Only linear or logarithmic spacing is allowed.")
 
-- 
2.43.0

