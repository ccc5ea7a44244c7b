From 72d7518488652cdc4bdd54ce780acc95448ad2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:24 +0000
Subject: [PATCH 01/51] fix: do not modify the plot keyword dictionaries given
 to the distance metrics

---
 turbustat/statistics/delta_variance/delta_variance.py | 3 +++
 turbustat/statistics/dendrograms/dendro_stats.py      | 6 ++++++
 turbustat/statistics/mvc/mvc.py                       | 3 +++
 turbustat/statistics/pca/pca.py                       | 3 +++
 turbustat/statistics/pdf/compare_pdf.py               | 3 +++
 turbustat/statistics/pspec_bispec/pspec.py            | 3 +++
 turbustat/statistics/scf/scf.py                       | 3 +++
 turbustat/statistics/stat_moments/highstatmoments.py  | 3 +++
 turbustat/statistics/vca_vcs/vca.py                   | 3 +++
 turbustat/statistics/vca_vcs/vcs.py                   | 3 +++
 turbustat/statistics/wavelets/wavelet_transform.py    | 3 +++
 11 files changed, 36 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 989d282..a15a263 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -923,6 +923,9 @@ class DeltaVariance_Distance(object):
             print(self.delvar1.fit.summary())
             print(self.delvar2.fit.summary())
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 784e79e..f92ac7a 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -644,6 +644,9 @@ class Dendrogram_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
@@ -771,6 +774,9 @@ class Dendrogram_Distance(object):
         if verbose:
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index d284fef..6e00d88 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -466,6 +466,9 @@ class MVC_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 18d5766..ef1be66 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -1160,6 +1160,9 @@ class PCA_Distance(object):
         if verbose:
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index cfd0eaa..b56b6a6 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -719,6 +719,9 @@ class PDF_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'marker': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'marker': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index bc040aa..dce8e48 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -366,6 +366,9 @@ class PSpec_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index fdb0cde..4dea1a8 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -1004,6 +1004,9 @@ class SCF_Distance(object):
         if verbose:
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'marker': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'marker': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 41e95fd..7b5a58b 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -693,6 +693,9 @@ class StatMoments_Distance(object):
         if verbose:
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'label': '1'}
             defaults2 = {'color': 'g', 'label': '2'}
 
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 8baa9d8..3a4a885 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -353,6 +353,9 @@ class VCA_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 50edf6f..54933c8 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -512,6 +512,9 @@ class VCS_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 0057818..0fb7912 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -715,6 +715,9 @@ class Wavelet_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
-- 
2.43.0


From 2aaeb7808341ea7e3787e67430de4cc54db89fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:42 +0000
Subject: [PATCH 02/51] fix: do not remove entries from the pyfftw and fit
 keyword dictionaries given to run

---
 turbustat/statistics/mvc/mvc.py            | 1 +
 turbustat/statistics/pspec_bispec/pspec.py | 2 ++
 turbustat/statistics/vca_vcs/vca.py        | 2 ++
 turbustat/statistics/vca_vcs/vcs.py        | 1 +
 4 files changed, 6 insertions(+)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 6e00d88..6e5dc8f 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -273,6 +273,7 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index dce8e48..d797140 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -177,10 +177,12 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
         # Pop fit_unbinned if given as kwarg in dict.
+        fit_kwargs = dict(fit_kwargs)
         if fit_kwargs.get('fit_unbinned') is not None:
             fit_kwargs.pop('fit_unbinned')
 
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 3a4a885..5b8d25d 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -183,10 +183,12 @@ class VCA(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
         # Pop fit_unbinned if given as kwarg in dict.
+        fit_kwargs = dict(fit_kwargs)
         if fit_kwargs.get('fit_unbinned') is not None:
             fit_kwargs.pop('fit_unbinned')
 
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 54933c8..04fdce4 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -371,6 +371,7 @@ class VCS(BaseStatisticMixIn):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
         self.compute_pspec(use_pyfftw=use_pyfftw, threads=threads,
-- 
2.43.0


From f672f7f599fa512038c96ffc0157d218bf5846bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:42 +0000
Subject: [PATCH 03/51] fix: PSpec_Distance accepts fit_kwargs in pspec_kwargs
 and leaves the caller's dictionary unchanged

---
 turbustat/statistics/pspec_bispec/pspec.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index d797140..d5daac3 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -288,11 +288,11 @@ class PSpec_Distance(object):
             this_pspec_kwargs.pop('high_cut', None)
             this_pspec_kwargs.pop('fit_2D', None)
 
-            if 'fit_kwargs' in this_pspec_kwargs:
-                this_pspec_kwargs['fit_kwargs'].pop('brk', None)
+            fit_kwargs = dict(this_pspec_kwargs.pop('fit_kwargs', {}))
+            fit_kwargs['brk'] = breaks[0]
 
             self.pspec1.run(low_cut=low_cut[0], high_cut=high_cut[0],
-                            fit_kwargs={'brk': breaks[0]},
+                            fit_kwargs=fit_kwargs,
                             fit_2D=False,
                             **this_pspec_kwargs)
         # else:
@@ -316,11 +316,11 @@ class PSpec_Distance(object):
             this_pspec2_kwargs.pop('high_cut', None)
             this_pspec2_kwargs.pop('fit_2D', None)
 
-            if 'fit_kwargs' in this_pspec2_kwargs:
-                this_pspec2_kwargs['fit_kwargs'].pop('brk', None)
+            fit_kwargs = dict(this_pspec2_kwargs.pop('fit_kwargs', {}))
+            fit_kwargs['brk'] = breaks[1]
 
             self.pspec2.run(low_cut=low_cut[1], high_cut=high_cut[1],
-                            fit_kwargs={'brk': breaks[1]},
+                            fit_kwargs=fit_kwargs,
                             fit_2D=False,
                             **this_pspec2_kwargs)
 
-- 
2.43.0


From 82cb12281a5cd736291713df09bb005cf9e9f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:58 +0000
Subject: [PATCH 04/51] fix: PowerSpectrum no longer changes the weights array
 given by the caller

---
 turbustat/statistics/pspec_bispec/pspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index d5daac3..b3f86ff 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -53,9 +53,9 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
             # Get rid of all NaNs
             isnan = np.isnan(self.data)
 
+            weights = weights.copy()
             weights[np.isnan(weights)] = 0.0
             weights[isnan] = 0.0
-            self.data[isnan] = 0.0
 
         self.weighted_data = self.data * weights
 
-- 
2.43.0


From ef3477c258fc9e19f8b7fc68bd7728c315e0b96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:58 +0000
Subject: [PATCH 05/51] fix: Dendrogram_Distance no longer changes the caller's
 keyword dictionaries and strips reserved keys for both datasets

---
 turbustat/statistics/dendrograms/dendro_stats.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index f92ac7a..ad47b4f 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -539,6 +539,13 @@ class Dendrogram_Distance(object):
         if dendro2_kwargs is None:
             dendro2_kwargs = dendro_kwargs
 
+        # Set by this class when running Dendrogram_Stats
+        dendro_kwargs = dict(dendro_kwargs)
+        dendro2_kwargs = dict(dendro2_kwargs)
+        for key in ['make_hists', 'verbose']:
+            dendro_kwargs.pop(key, None)
+            dendro2_kwargs.pop(key, None)
+
         # if fiducial_model is not None:
         #     self.dendro1 = fiducial_model
         # elif isinstance(dataset1, str):
@@ -552,15 +559,11 @@ class Dendrogram_Distance(object):
                 warn("Dendrogram_Stats needs to be re-run for dataset1 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
-                dendro_kwargs.pop('make_hists', None)
-                dendro_kwargs.pop('verbose', None)
                 self.dendro1.run(verbose=False, make_hists=False,
                                  **dendro_kwargs)
         else:
             self.dendro1 = Dendrogram_Stats(dataset1, min_deltas=min_deltas,
                                             dendro_params=dendro_params1)
-            dendro_kwargs.pop('make_hists', None)
-            dendro_kwargs.pop('verbose', None)
             self.dendro1.run(verbose=False, make_hists=False,
                              **dendro_kwargs)
 
@@ -575,16 +578,12 @@ class Dendrogram_Distance(object):
                 warn("Dendrogram_Stats needs to be re-run for dataset2 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
-                dendro_kwargs.pop('make_hists', None)
-                dendro_kwargs.pop('verbose', None)
                 self.dendro2.run(verbose=False, make_hists=False,
                                  **dendro2_kwargs)
         else:
             self.dendro2 = \
                 Dendrogram_Stats(dataset2, min_deltas=min_deltas,
                                  dendro_params=dendro_params2)
-            dendro_kwargs.pop('make_hists', None)
-            dendro_kwargs.pop('verbose', None)
             self.dendro2.run(verbose=False, make_hists=False,
                              **dendro2_kwargs)
 
-- 
2.43.0


From 3708400e35e682656db43c68ba2d27ef4f90d1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:58 +0000
Subject: [PATCH 06/51] fix: remove_small_objects returns a new mask instead of
 changing its input

---
 turbustat/statistics/genus/genus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index b90d0f5..b098044 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -679,6 +679,8 @@ def remove_small_objects(arr, min_size, connectivity=2):
 
     sizes = nd.sum(arr, labels, range(1, num + 1))
 
+    arr = arr.copy()
+
     for i, size in enumerate(sizes):
         if size >= min_size:
             continue
-- 
2.43.0


From 1a1b3db170876351f0dc50ffe5fcd89ef1783c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:58 +0000
Subject: [PATCH 07/51] fix: WidthEstimate1D(method='walk-down') no longer
 rescales the caller's array

---
 turbustat/statistics/pca/width_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index 36c2755..b88ea03 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -352,7 +352,7 @@ def WidthEstimate1D(inList, method='walk-down'):
                 scales[idx] = np.abs(output.stddev.value) * np.sqrt(2)
             scale_errors[idx] = errors[-1] * np.sqrt(2)
         elif method == "walk-down":
-            y /= y.max()
+            y = y / y.max()
             # Starting from the first point, start walking down the curve until
             # 1/e is reached
             for i, val in enumerate(y):
-- 
2.43.0


From 39123b6255f8d4e44761ceafec9d0f49ec0c9e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:32 +0000
Subject: [PATCH 08/51] fix: DeltaVariance_Distance treats a precomputed
 dataset2, its run keywords and its lags like those of dataset1

---
 turbustat/statistics/delta_variance/delta_variance.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index a15a263..8f0cd4c 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -710,7 +710,7 @@ class DeltaVariance_Distance(object):
 
     def __init__(self, dataset1, dataset2, weights1=None, weights2=None,
                  diam_ratio=1.5, lags=None, use_common_lags=True,
-                 delvar_kwargs={}, delvar2_kwargs=None):
+                 delvar_kwargs={}, delvar2_kwargs=None, lags2=None):
         super(DeltaVariance_Distance, self).__init__()
 
         if isinstance(dataset1, DeltaVariance):
@@ -720,7 +720,7 @@ class DeltaVariance_Distance(object):
             _given_data1 = True
             dataset1 = copy(input_data(dataset1, no_header=False))
 
-        if isinstance(dataset1, DeltaVariance):
+        if isinstance(dataset2, DeltaVariance):
             _given_data2 = False
             self.delvar2 = dataset2
         else:
@@ -796,6 +796,7 @@ class DeltaVariance_Distance(object):
             # Check if we need to re-run the statistic if the lags are wrong.
             if lags1 is not None:
                 if not (self.delvar1.lags == lags1).all():
+                    self.delvar1._lags = lags1
                     self.delvar1.run(**delvar_kwargs)
 
             if not hasattr(self.delvar1, "_slope"):
@@ -816,6 +817,7 @@ class DeltaVariance_Distance(object):
         else:
             if lags2 is not None:
                 if not (self.delvar2.lags == lags2).all():
+                    self.delvar2._lags = lags2
                     self.delvar2.run(**delvar2_kwargs)
 
             if not hasattr(self.delvar2, "_slope"):
@@ -823,7 +825,7 @@ class DeltaVariance_Distance(object):
                      " slope. Re-running delta variance.")
                 if lags2 is not None:
                     self.delvar2._lags = lags2
-                self.delvar2.run(**delvar_kwargs)
+                self.delvar2.run(**delvar2_kwargs)
 
     @property
     def curve_distance(self):
-- 
2.43.0


From ae86f63b1dbf466affc8c1509af5587d93428c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:11 +0000
Subject: [PATCH 09/51] fix: Cramer_Distance no longer reseeds numpy's global
 random state

---
 turbustat/statistics/cramer/cramer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/cramer/cramer.py b/turbustat/statistics/cramer/cramer.py
index 1bc1d59..aade6b7 100644
--- a/turbustat/statistics/cramer/cramer.py
+++ b/turbustat/statistics/cramer/cramer.py
@@ -95,7 +95,7 @@ class Cramer_Distance(object):
         if samps1 != samps2:
 
             # Set the seed due to the sampling
-            np.random.seed(seed)
+            rng = np.random.RandomState(seed)
 
             if samps1 < samps2:
 
@@ -103,8 +103,8 @@ class Cramer_Distance(object):
 
                 for i in range(self.data_matrix2.shape[0]):
                     new_data[i, :] = \
-                        np.random.choice(self.data_matrix2[i, :], samps1,
-                                         replace=False)
+                        rng.choice(self.data_matrix2[i, :], samps1,
+                                   replace=False)
 
                 self._data_matrix2 = new_data
 
@@ -114,8 +114,8 @@ class Cramer_Distance(object):
 
                 for i in range(self.data_matrix1.shape[0]):
                     new_data[i, :] = \
-                        np.random.choice(self.data_matrix1[i, :], samps2,
-                                         replace=False)
+                        rng.choice(self.data_matrix1[i, :], samps2,
+                                   replace=False)
 
                 self._data_matrix1 = new_data
 
-- 
2.43.0


From a9dd2ab35dbe4a10ea0237796a829df75418694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:07 +0000
Subject: [PATCH 10/51] fix: distance metrics no longer show the figure before
 it is completed and saved

---
 turbustat/statistics/base_pspec2.py                  |  7 +++++--
 .../statistics/delta_variance/delta_variance.py      | 11 +++++++----
 turbustat/statistics/mvc/mvc.py                      |  2 ++
 turbustat/statistics/pspec_bispec/pspec.py           |  2 ++
 turbustat/statistics/vca_vcs/vca.py                  |  2 ++
 turbustat/statistics/vca_vcs/vcs.py                  | 12 ++++++++----
 turbustat/statistics/wavelets/wavelet_transform.py   | 11 +++++++----
 7 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 3af1cba..b0330b0 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -530,7 +530,7 @@ class StatisticBase_PSpec2D(object):
     def plot_fit(self, show_2D=False, show_residual=True,
                  color='r', fit_color='k', label=None,
                  fillin_errs=True, symbol="o", xunit=u.pix**-1, save_name=None,
-                 use_wavenumber=False):
+                 use_wavenumber=False, show=True):
         '''
         Plot the fitted model.
 
@@ -564,6 +564,9 @@ class StatisticBase_PSpec2D(object):
             is given.
         use_wavenumber : bool, optional
             Convert spatial frequencies to a wavenumber.
+        show : bool, optional
+            Show the figure when it is not saved. Disable to add to the
+            figure after this call.
         '''
 
         import matplotlib.pyplot as plt
@@ -762,5 +765,5 @@ class StatisticBase_PSpec2D(object):
         if save_name is not None:
             plt.savefig(save_name)
             plt.close()
-        else:
+        elif show:
             plt.show()
diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 8f0cd4c..a19d17e 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -493,7 +493,7 @@ class DeltaVariance(BaseStatisticMixIn):
 
     def plot_fit(self, save_name=None, xunit=u.pix, symbol='o', color='r',
                  fit_color='k', label=None,
-                 show_residual=True):
+                 show_residual=True, show=True):
         '''
         Plot the delta-variance curve and the fit.
 
@@ -514,6 +514,9 @@ class DeltaVariance(BaseStatisticMixIn):
             Label to later be used in a legend.
         show_residual : bool, optional
             Plot the fit residuals.
+        show : bool, optional
+            Show the figure when it is not saved. Disable to add to the
+            figure after this call.
         '''
 
         if fit_color is None:
@@ -600,7 +603,7 @@ class DeltaVariance(BaseStatisticMixIn):
         if save_name is not None:
             plt.savefig(save_name)
             plt.close()
-        else:
+        elif show:
             plt.show()
 
     def run(self, show_progress=True, verbose=False, xunit=u.pix,
@@ -944,8 +947,8 @@ class DeltaVariance_Distance(object):
             if 'xunit' in plot_kwargs2:
                 del plot_kwargs2['xunit']
 
-            self.delvar1.plot_fit(xunit=xunit, **plot_kwargs1)
-            self.delvar2.plot_fit(xunit=xunit, **plot_kwargs2)
+            self.delvar1.plot_fit(xunit=xunit, show=False, **plot_kwargs1)
+            self.delvar2.plot_fit(xunit=xunit, show=False, **plot_kwargs2)
             axes = plt.gcf().get_axes()
             axes[0].legend(loc='best', frameon=True)
 
diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 6e5dc8f..96e2ab3 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -488,9 +488,11 @@ class MVC_Distance(object):
 
             self.mvc1.plot_fit(xunit=xunit,
                                use_wavenumber=use_wavenumber,
+                               show=False,
                                **plot_kwargs1)
             self.mvc2.plot_fit(xunit=xunit,
                                use_wavenumber=use_wavenumber,
+                               show=False,
                                **plot_kwargs2)
             axes = plt.gcf().get_axes()
             axes[0].legend(loc='best', frameon=True)
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index b3f86ff..a377219 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -389,9 +389,11 @@ class PSpec_Distance(object):
 
             self.pspec1.plot_fit(xunit=xunit,
                                  use_wavenumber=use_wavenumber,
+                                 show=False,
                                  **plot_kwargs1)
             self.pspec2.plot_fit(xunit=xunit,
                                  use_wavenumber=use_wavenumber,
+                                 show=False,
                                  **plot_kwargs2)
             axes = plt.gcf().get_axes()
             axes[0].legend(loc='best', frameon=True)
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 5b8d25d..38c7585 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -376,9 +376,11 @@ class VCA_Distance(object):
 
             self.vca1.plot_fit(xunit=xunit,
                                use_wavenumber=use_wavenumber,
+                               show=False,
                                **plot_kwargs1)
             self.vca2.plot_fit(xunit=xunit,
                                use_wavenumber=use_wavenumber,
+                               show=False,
                                **plot_kwargs2)
             axes = plt.gcf().get_axes()
             axes[0].legend(loc='best', frameon=True)
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 04fdce4..ddacceb 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -249,7 +249,8 @@ class VCS(BaseStatisticMixIn):
         return self.fit.brk_err
 
     def plot_fit(self, save_name=None, xunit=u.pix**-1, color='r',
-                 symbol='o', fit_color='k', label=None, show_residual=True):
+                 symbol='o', fit_color='k', label=None, show_residual=True,
+                 show=True):
         '''
         Plot the VCS curve and the associated fit.
 
@@ -269,6 +270,9 @@ class VCS(BaseStatisticMixIn):
             Label to later be used in a legend.
         show_residual : bool, optional
             Plot the residuals for the 1D power-spectrum fit.
+        show : bool, optional
+            Show the figure when it is not saved. Disable to add to the
+            figure after this call.
 
         '''
         import matplotlib.pyplot as plt
@@ -342,7 +346,7 @@ class VCS(BaseStatisticMixIn):
         if save_name is not None:
             plt.savefig(save_name)
             plt.close()
-        else:
+        elif show:
             plt.show()
 
     def run(self, verbose=False, save_name=None, xunit=u.pix**-1,
@@ -532,8 +536,8 @@ class VCS_Distance(object):
             if 'xunit' in plot_kwargs2:
                 del plot_kwargs2['xunit']
 
-            self.vcs1.plot_fit(xunit=xunit, **plot_kwargs1)
-            self.vcs2.plot_fit(xunit=xunit, **plot_kwargs2)
+            self.vcs1.plot_fit(xunit=xunit, show=False, **plot_kwargs1)
+            self.vcs2.plot_fit(xunit=xunit, show=False, **plot_kwargs2)
 
             if save_name is not None:
                 plt.savefig(save_name)
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 0fb7912..98c8cd6 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -433,7 +433,7 @@ class Wavelet(BaseStatisticMixIn):
 
     def plot_transform(self, save_name=None, xunit=u.pix,
                        color='r', symbol='o', fit_color='k',
-                       label=None, show_residual=True):
+                       label=None, show_residual=True, show=True):
         '''
         Plot the transform and the fit.
 
@@ -453,6 +453,9 @@ class Wavelet(BaseStatisticMixIn):
             Label to later be used in a legend.
         show_residual : bool, optional
             Plot the fit residuals.
+        show : bool, optional
+            Show the figure when it is not saved. Disable to add to the
+            figure after this call.
         '''
 
         import matplotlib.pyplot as plt
@@ -540,7 +543,7 @@ class Wavelet(BaseStatisticMixIn):
         if save_name is not None:
             plt.savefig(save_name)
             plt.close()
-        else:
+        elif show:
             plt.show()
 
     def run(self, show_progress=True, verbose=False, xunit=u.pix,
@@ -734,9 +737,9 @@ class Wavelet_Distance(object):
             if 'xunit' in plot_kwargs2:
                 del plot_kwargs2['xunit']
 
-            self.wt1.plot_transform(xunit=xunit,
+            self.wt1.plot_transform(xunit=xunit, show=False,
                                     **plot_kwargs1)
-            self.wt2.plot_transform(xunit=xunit,
+            self.wt2.plot_transform(xunit=xunit, show=False,
                                     **plot_kwargs2)
             axes = plt.gcf().get_axes()
             axes[0].legend(loc='best', frameon=True)
-- 
2.43.0


From 34b2db6b3a9b0606f1fdd6f29368fdc0b0f678ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:22 +0000
Subject: [PATCH 11/51] fix: Moments.make_moments(units=False) strips the unit
 of the line width instead of failing

---
 turbustat/moments/make_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index 0b3ce45..dd96831 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -136,7 +136,7 @@ class Moments(object):
         if not units:
             self._moment0 = self._moment0.value
             self._moment1 = self._moment1.value
-            self._moment2 = self._moment2.value
+            self._linewidth = self._linewidth.value
 
     def make_moment_errors(self, axis=0, scale=None):
         '''
-- 
2.43.0


From c543d44b2941fa0704c62af7e5b24329c98487b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:22 +0000
Subject: [PATCH 12/51] fix: Moments.make_moment_errors uses the noise level it
 is given

---
 turbustat/moments/make_moments.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index dd96831..0001f5d 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -146,6 +146,8 @@ class Moments(object):
         ----------
         axis : int, optional
             The axis to calculate the moments along.
+        scale : `~astropy.units.Quantity`, optional
+            The noise level of the cube. Overrides the one given to `Moments`.
         '''
 
         if not hasattr(self, "_moment0"):
@@ -160,8 +162,9 @@ class Moments(object):
             self._moment1_err = np.zeros_like(self.moment1)
             self._linewidth_err = np.zeros_like(self.linewidth)
 
-        elif self.scale is not None:
-            scale = self.scale
+        else:
+            if scale is None:
+                scale = self.scale
 
             self._moment0_err = moment0_error(self.cube, scale,
                                               how=self.moment_how, axis=axis)
-- 
2.43.0


From f022f888321219caff92a5ab1ee5f80413594853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:24 +0000
Subject: [PATCH 13/51] fix: Moments.from_fits applies the given mask

---
 turbustat/moments/make_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index 0001f5d..fa58524 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -397,7 +397,7 @@ class Moments(object):
 
         if mask_name is not None:
             mask = fits.getdata(mask_name)
-            self.with_mask(mask=mask)
+            self.apply_mask(mask=mask)
 
         # Moment 0
         if moment0 is not None:
-- 
2.43.0


From fae85211a853eb139dc2473a9fbfd4b0b626420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:24 +0000
Subject: [PATCH 14/51] fix: moment_masking looks for signal-id instead of an
 undefined flag

---
 turbustat/moments/make_moments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index fa58524..4679cd8 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -457,7 +457,9 @@ def moment_masking(cube, kernel_size, clip=5, dilations=1):
     '''
     '''
 
-    if not signal_id_flag:
+    try:
+        from signal_id import Noise
+    except ImportError:
         raise ImportError("signal-id is not installed."
                           " This function is not available.")
 
-- 
2.43.0


From c467415fea7b1a148d4c6fc2fd989b53d7438e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:24 +0000
Subject: [PATCH 15/51] fix: SCF compares the boundary option by value

---
 turbustat/statistics/scf/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 4dea1a8..2cc2743 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -199,7 +199,7 @@ class SCF(BaseStatisticMixIn):
                     shift_func = fourier_shift
                 tmp = shift_func(tmp, y_shift, axis=2)
 
-            if boundary is "cut":
+            if boundary == "cut":
                 # Always round up to the nearest integer.
                 x_shift = np.ceil(x_shift).astype(int)
                 y_shift = np.ceil(y_shift).astype(int)
@@ -219,7 +219,7 @@ class SCF(BaseStatisticMixIn):
 
                 data_slice = (slice(None), x_slice_data, y_slice_data)
                 tmp_slice = (slice(None), x_slice_tmp, y_slice_tmp)
-            elif boundary is "continuous":
+            elif boundary == "continuous":
                 data_slice = (slice(None),) * 3
                 tmp_slice = (slice(None),) * 3
 
-- 
2.43.0


From 35b44d775c734feeaa030b0c0fec6eeeffb91acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:24 +0000
Subject: [PATCH 16/51] fix: SCF_Distance takes the lags of the second data set
 from its own SCF

---
 turbustat/statistics/scf/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 2cc2743..9381526 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -866,7 +866,7 @@ class SCF_Distance(object):
             else:
                 roll_lags1 = roll_lags
 
-            if not _has_data1:
+            if not _has_data2:
                 roll_lags2 = self.scf2._to_pixel(self.scf2.roll_lags)
             else:
                 roll_lags2 = roll_lags
-- 
2.43.0


From 8cd2599dfa30c2611b1126834fdcb89c0637f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:24 +0000
Subject: [PATCH 17/51] fix: WidthEstimate2D(diagnosticplots=True) no longer
 fails when no ellipse could be fit

---
 turbustat/statistics/pca/width_estimate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index b88ea03..e25ca18 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -207,6 +207,7 @@ def WidthEstimate2D(inList, method='contour', noise_ACF=0,
                 ax.set_title("{}".format(idx + 1))
 
     if diagnosticplots:
+        import matplotlib.pyplot as plt
         plt.tight_layout()
 
     if brunt_beamcorrect:
-- 
2.43.0


From b9fd53542b8dce8e9a8acb430475dbf8d3e62edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:24 +0000
Subject: [PATCH 18/51] fix: PCA.eigimages raises a ValueError when asked for 0
 eigenimages

---
 turbustat/statistics/pca/pca.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index ef1be66..cc1f408 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -221,6 +221,8 @@ class PCA(BaseStatisticMixIn):
             # Find where we have valid eigenvalues, and use the last
             # n_eigs of those.
             iterat = self._valid_eigenvectors()[n_eigs:]
+        else:
+            raise ValueError("n_eigs must not be 0.")
 
         for ct, idx in enumerate(iterat):
             eigimg = np.zeros(self.data.shape[1:], dtype=float)
-- 
2.43.0


From 55b2ba2cda8280f73d1339a35ae738dba1da00f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:24 +0000
Subject: [PATCH 19/51] fix: Lm_Seg.fit_model raises a ValueError when the
 initial epsilon is below the tolerance

---
 turbustat/statistics/lm_seg.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index 0f972d1..54d662e 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -93,10 +93,9 @@ class Lm_Seg(object):
         epsil = epsil_0
 
         # Before we get into the loop, make sure that this was a bad fit
-        if epsil_0 < tol:
-            warnings.warning('Initial epsilon is smaller than tolerance. \
-                             The tolerance should be set smaller.')
-            return init_lm
+        if epsil_0 <= tol:
+            raise ValueError("Initial epsilon is smaller than tolerance. "
+                             "The tolerance should be set smaller.")
 
         # Sum of residuals
         dev_0 = np.sum(init_lm.resid**2.)
-- 
2.43.0


From e2e217e9c9ef2b940052ec1bdac1db8a8b8c565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:24 +0000
Subject: [PATCH 20/51] fix: Lm_Seg removes the weights of the non-finite
 points it removes from x and y

---
 turbustat/statistics/lm_seg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index 54d662e..d24dee0 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -66,6 +66,9 @@ class Lm_Seg(object):
         self.y = self.y[good_vals]
         self.x = self.x[good_vals]
 
+        if self.weights is not None:
+            self.weights = self.weights[good_vals]
+
         if self.x.size <= 3 or self.y.size <= 3:
             raise Warning("Not enough finite points to fit.")
 
-- 
2.43.0


From 597d8d0568f4a268180c32b24f1ae71f3d5ddcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 21/51] fix: DeltaVariance.convolve_arrays and convolve_weights
 return the arrays that were kept

---
 turbustat/statistics/delta_variance/delta_variance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index a19d17e..ad346fe 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -267,14 +267,14 @@ class DeltaVariance(BaseStatisticMixIn):
         if len(self._convolved_arrays) == 0:
             warn("Run `DeltaVariance.compute_deltavar` with "
                  "`keep_convolve_arrays=True`")
-        return self._convolve_arrays
+        return self._convolved_arrays
 
     @property
     def convolve_weights(self):
         if len(self._convolved_weights) == 0:
             warn("Run `DeltaVariance.compute_deltavar` with "
                  "`keep_convolve_arrays=True`")
-        return self._convolve_arrays
+        return self._convolved_weights
 
     @property
     def delta_var(self):
-- 
2.43.0


From 030a6894b0b71db8dbe604ce5091796e01adc591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 22/51] fix: DeltaVariance keeps only the convolved arrays of
 the last run

---
 turbustat/statistics/delta_variance/delta_variance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index ad346fe..6e7771c 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -175,6 +175,9 @@ class DeltaVariance(BaseStatisticMixIn):
 
         '''
 
+        self._convolved_arrays = []
+        self._convolved_weights = []
+
         self._delta_var = np.empty((len(self.lags)))
         self._delta_var_error = np.empty((len(self.lags)))
 
-- 
2.43.0


From 6e56b689e2bce2bbb8c407b105e55098cb3226e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:22 +0000
Subject: [PATCH 23/51] fix: StatMoments.run applies the min_frac option

---
 turbustat/statistics/stat_moments/highstatmoments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 7b5a58b..a50ce56 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -469,6 +469,7 @@ class StatMoments(BaseStatisticMixIn):
 
         self.array_moments()
         self.compute_spatial_distrib(periodic=periodic, radius=radius,
+                                     min_frac=min_frac,
                                      show_progress=show_progress)
         self.make_spatial_histograms(**hist_kwargs)
 
-- 
2.43.0


From 7ccaba61403cfbc21650d6e804a82d299d37047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:22 +0000
Subject: [PATCH 24/51] fix: VCA_Distance uses radial_pspec_kwargs2 for the
 second cube

---
 turbustat/statistics/vca_vcs/vca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 38c7585..7e191fc 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -310,7 +310,7 @@ class VCA_Distance(object):
             self.vca2.run(fit_kwargs={'brk': breaks[1]},
                           low_cut=low_cut[1],
                           high_cut=high_cut[1],
-                          radial_pspec_kwargs=radial_pspec_kwargs,
+                          radial_pspec_kwargs=radial_pspec_kwargs2,
                           fit_2D=False)
 
     def distance_metric(self, verbose=False, xunit=u.pix**-1,
-- 
2.43.0


From 93e427942f5ef1eab9ac4e38d95367193a7432fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:42 +0000
Subject: [PATCH 25/51] fix: pass threads and pyfftw_kwargs on to pyfftw

---
 turbustat/statistics/convolve_wrapper.py           | 5 +++--
 turbustat/statistics/rfft_to_fft.py                | 3 ++-
 turbustat/statistics/wavelets/wavelet_transform.py | 5 +++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/convolve_wrapper.py b/turbustat/statistics/convolve_wrapper.py
index d6799d9..9d5629a 100644
--- a/turbustat/statistics/convolve_wrapper.py
+++ b/turbustat/statistics/convolve_wrapper.py
@@ -11,6 +11,7 @@ except ImportError:
 from astropy.convolution import convolve_fft
 from astropy.version import version as astro_version
 import numpy as np
+from functools import partial
 from warnings import warn
 
 
@@ -43,8 +44,8 @@ def convolution_wrapper(img, kernel, use_pyfftw=False, threads=1,
 
     if use_pyfftw:
         if PYFFTW_FLAG:
-            use_fftn = fftn
-            use_ifftn = ifftn
+            use_fftn = partial(fftn, threads=threads, **pyfftw_kwargs)
+            use_ifftn = partial(ifftn, threads=threads, **pyfftw_kwargs)
         else:
             warn("pyfftw not installed. Using numpy.fft functions.")
             use_fftn = np.fft.fftn
diff --git a/turbustat/statistics/rfft_to_fft.py b/turbustat/statistics/rfft_to_fft.py
index 67c07c5..72992ab 100644
--- a/turbustat/statistics/rfft_to_fft.py
+++ b/turbustat/statistics/rfft_to_fft.py
@@ -52,7 +52,8 @@ def rfft_to_fft(image, keep_rfft=False, use_pyfftw=False,
 
     if use_pyfftw:
         if PYFFTW_FLAG:
-            fft_abs = np.abs(rfftn(image, **pyfftw_kwargs))
+            fft_abs = np.abs(rfftn(image, threads=threads,
+                                   **pyfftw_kwargs))
         else:
             use_pyfftw = False
             warn("pyfftw is not installed")
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 98c8cd6..4e8cb27 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -5,6 +5,7 @@ import numpy as np
 import warnings
 import astropy.units as u
 import statsmodels.api as sm
+from functools import partial
 from warnings import warn
 from astropy.utils.console import ProgressBar
 
@@ -138,8 +139,8 @@ class Wavelet(BaseStatisticMixIn):
 
         if use_pyfftw:
             if PYFFTW_FLAG:
-                use_fftn = fftn
-                use_ifftn = ifftn
+                use_fftn = partial(fftn, threads=threads, **pyfftw_kwargs)
+                use_ifftn = partial(ifftn, threads=threads, **pyfftw_kwargs)
             else:
                 warn("pyfftw not installed. Using numpy.fft functions.")
                 use_fftn = np.fft.fftn
-- 
2.43.0


From 3984fdda52a8c678ea593c98875005fb5db34a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:42 +0000
Subject: [PATCH 26/51] fix: Genus_Distance uses the given number of thresholds

---
 turbustat/statistics/genus/genus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index b098044..f5f9f75 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -552,13 +552,13 @@ class Genus_Distance(object):
         img1 = standardize(img1)
         img2 = standardize(img2)
 
-        self.genus1 = Genus(img1, smoothing_radii=smoothing_radii,
+        self.genus1 = Genus(img1, smoothing_radii=smoothing_radii, numpts=numpts,
                             min_value=min_value[0], max_value=max_value[0],
                             lowdens_percent=lowdens_percent[0],
                             highdens_percent=highdens_percent[0])
         self.genus1.run(**genus_kwargs)
 
-        self.genus2 = Genus(img2, smoothing_radii=smoothing_radii,
+        self.genus2 = Genus(img2, smoothing_radii=smoothing_radii, numpts=numpts,
                             min_value=min_value[1], max_value=max_value[1],
                             lowdens_percent=lowdens_percent[1],
                             highdens_percent=highdens_percent[1])
-- 
2.43.0


From a424fae18ce670a20e0fc3b871b6be9149bd38b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:42 +0000
Subject: [PATCH 27/51] fix: Wavelet_Distance uses the given number of scales

---
 turbustat/statistics/wavelets/wavelet_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 4e8cb27..4ac5a26 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -659,7 +659,7 @@ class Wavelet_Distance(object):
                      "fitted slope. Computing Wavelet transform.")
                 needs_run = True
         else:
-            self.wt1 = Wavelet(dataset1, scales=scales)
+            self.wt1 = Wavelet(dataset1, scales=scales, num=num)
             needs_run = True
 
         if needs_run:
@@ -676,7 +676,7 @@ class Wavelet_Distance(object):
                      "fitted slope. Computing Wavelet transform.")
                 needs_run = True
         else:
-            self.wt2 = Wavelet(dataset2, scales=scales)
+            self.wt2 = Wavelet(dataset2, scales=scales, num=num)
             needs_run = True
 
         if needs_run:
-- 
2.43.0


From 4260caffe4ea564c6c09a7faa60d5158487e9815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:42 +0000
Subject: [PATCH 28/51] fix: AnnulusKernel uses the given support_scaling

---
 turbustat/statistics/delta_variance/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/kernels.py b/turbustat/statistics/delta_variance/kernels.py
index 6c83d43..3cbbb82 100644
--- a/turbustat/statistics/delta_variance/kernels.py
+++ b/turbustat/statistics/delta_variance/kernels.py
@@ -71,7 +71,7 @@ class AnnulusKernel(Kernel2D):
         amp = 1. / (2 * np.pi * stddev**2 * (ratio**2 - 1))
         self._model = GaussianAnnulus2D(amp, 0, 0, stddev, ratio)
 
-        self._default_size = _round_up_to_odd_integer(8 * stddev)
+        self._default_size = _round_up_to_odd_integer(support_scaling * stddev)
         super(AnnulusKernel, self).__init__(**kwargs)
         self._truncation = np.abs(1. - self._array.sum())
 
-- 
2.43.0


From 2df2e15b80c12bd756b6c3221c324cfd59312ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:42 +0000
Subject: [PATCH 29/51] fix: GaussianAnnulus2D is centred on its mean

---
 turbustat/statistics/delta_variance/kernels.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/delta_variance/kernels.py b/turbustat/statistics/delta_variance/kernels.py
index 3cbbb82..fd32ac2 100644
--- a/turbustat/statistics/delta_variance/kernels.py
+++ b/turbustat/statistics/delta_variance/kernels.py
@@ -146,8 +146,10 @@ class GaussianAnnulus2D(Fittable2DModel):
     def evaluate(x, y, amplitude, x_mean, y_mean, stddev, ratio):
         """Two dimensional Gaussian Annulus function"""
 
-        inner = np.exp(-(x ** 2. + y ** 2.) / (2 * stddev**2))
-        outer = np.exp(-(x ** 2. + y ** 2.) / (2 * (ratio * stddev)**2))
+        rad_sq = (x - x_mean) ** 2. + (y - y_mean) ** 2.
+
+        inner = np.exp(-rad_sq / (2 * stddev**2))
+        outer = np.exp(-rad_sq / (2 * (ratio * stddev)**2))
 
         return amplitude * (outer - inner)
 
-- 
2.43.0


From 3d2237f34aa93ad12ec4740a21a593661aa3ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:42 +0000
Subject: [PATCH 30/51] fix: spectral_regrid_cube downsamples with the given
 function

---
 turbustat/statistics/vca_vcs/slice_thickness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/slice_thickness.py b/turbustat/statistics/vca_vcs/slice_thickness.py
index 33c542c..85dc797 100644
--- a/turbustat/statistics/vca_vcs/slice_thickness.py
+++ b/turbustat/statistics/vca_vcs/slice_thickness.py
@@ -114,7 +114,8 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
                 raise u.UnitsError("channel_width must be given in pixel units"
                                    " or the same spectral unit as the cube.")
 
-        return cube.downsample_axis(channel_width, axis=0)
+        return cube.downsample_axis(channel_width, axis=0,
+                                    estimator=downsamp_function)
 
     else:
         # Must then be regrid
-- 
2.43.0


From 6ceebe9e4012d39bec63dfd1dcda194a08164164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:42 +0000
Subject: [PATCH 31/51] fix: PCA.find_spatial_widths uses the given distance

---
 turbustat/statistics/pca/pca.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index cc1f408..07e6182 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -374,6 +374,9 @@ class PCA(BaseStatisticMixIn):
             `turbustat.statistics.stats_utils.EllipseModel.estimate_stderrs`.
 
         '''
+        if distance is not None:
+            self.distance = distance
+
         # Try reading beam width from the header is it is not given.
         if brunt_beamcorrect:
             if beam_fwhm is None:
-- 
2.43.0


From 16995a0f0547f5bd7818d0a9be4c892ed7574701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:21 +0000
Subject: [PATCH 32/51] fix: SCF_Distance recomputes an SCF whose number of
 lags differs from the common set

---
 turbustat/statistics/scf/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 9381526..db9fa89 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -897,7 +897,7 @@ class SCF_Distance(object):
             needs_run1 = False
 
             if roll_lags1.size != self.scf1.roll_lags.size:
-                lag_check = True
+                lag_check = False
             else:
                 lag_check = (roll_lags1 == self.scf1._to_pixel(self.scf1.roll_lags)).all()
 
@@ -928,7 +928,7 @@ class SCF_Distance(object):
             needs_run2 = False
 
             if roll_lags2.size != self.scf2.roll_lags.size:
-                lag_check = True
+                lag_check = False
             else:
                 lag_check = (roll_lags2 == self.scf2._to_pixel(self.scf2.roll_lags)).all()
 
-- 
2.43.0


From eea985eccbc251832fb9f3419611168398350d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:21 +0000
Subject: [PATCH 33/51] fix: StatMoments_Distance sets the bins of both data
 sets when it changes their radius

---
 turbustat/statistics/stat_moments/highstatmoments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index a50ce56..4a87426 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -594,7 +594,7 @@ class StatMoments_Distance(object):
                               " or common radius found by "
                               "StatMoments_Distance. Recomputing `moments1`.")
                 self.moments1.radius = radius1
-                self.moments1.nbins = nbins
+                self.moments1.nbins = self.nbins
                 needs_run = True
 
         if needs_run:
@@ -622,6 +622,7 @@ class StatMoments_Distance(object):
                               " or common radius found by "
                               "StatMoments_Distance. Recomputing `moments2`.")
                 self.moments2.radius = radius2
+                self.moments2.nbins = self.nbins
                 needs_run = True
 
         if needs_run:
-- 
2.43.0


From f8d63746a583efd8a8010f0a2bd96809348a00d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:23 +0000
Subject: [PATCH 34/51] fix: SCF keeps its size in step with roll_lags

---
 turbustat/statistics/scf/scf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index db9fa89..c479d11 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -89,8 +89,6 @@ class SCF(BaseStatisticMixIn):
             # Make sure that we can convert the lags
             self._to_pixel(self.roll_lags)
 
-        self.size = self.roll_lags.size
-
         self._scf_surface = None
         self._scf_spectrum_stddev = None
 
@@ -119,6 +117,7 @@ class SCF(BaseStatisticMixIn):
                                         " pixel, angular, or physical (if a"
                                         " distance is given) units.")
         self._roll_lags = value
+        self.size = value.size
 
     @property
     def scf_surface(self):
-- 
2.43.0


From 011621332a60a765a5a18034c64493b0e2ae9439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:01 +0000
Subject: [PATCH 35/51] fix: SCF_Distance uses the number of lags of the SCFs
 it compares

---
 turbustat/statistics/scf/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index c479d11..ca4ded2 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -951,8 +951,8 @@ class SCF_Distance(object):
             # params
             self.scf2.compute_spectrum()
 
-        if not needs_run1 and not needs_run2:
-            self.size = self.scf1.size
+        # The number of lags is the same in both
+        self.size = self.scf1.size
 
     def distance_metric(self, weighted=True, verbose=False,
                         plot_kwargs1={'color': 'b', 'marker': 'D',
-- 
2.43.0


From 5ade7fc3270ed29b7b362e17b915ce83520c26ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 36/51] fix: PDF_Distance.distance_metric compares the
 statistic option by value

---
 turbustat/statistics/pdf/compare_pdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index b56b6a6..f75846c 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -693,17 +693,17 @@ class PDF_Distance(object):
             Save the figure when a file name is given.
         '''
 
-        if statistic is 'all':
+        if statistic == 'all':
             self.compute_hellinger_distance()
             self.compute_ks_distance()
             # self.compute_ad_distance()
             if self._do_fit:
                 self.compute_lognormal_distance()
-        elif statistic is 'hellinger':
+        elif statistic == 'hellinger':
             self.compute_hellinger_distance()
-        elif statistic is 'ks':
+        elif statistic == 'ks':
             self.compute_ks_distance()
-        elif statistic is 'lognormal':
+        elif statistic == 'lognormal':
             if not self._do_fit:
                 raise Exception("Fitting must be enabled to compute the"
                                 " lognormal distance.")
-- 
2.43.0


From 8fa72e57f50727c4354dd93d30f780ca073637b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 37/51] fix: _format_data compares data_format by value

---
 turbustat/statistics/threeD_to_twoD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index 73e614f..b360df8 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -69,7 +69,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
     Rearrange data into a 2D object using the given format.
     '''
 
-    if data_format is "spectra":
+    if data_format == "spectra":
         if num_spec is None:
             raise ValueError('Must specify num_spec for data format',
                              'spectra.')
@@ -89,7 +89,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
 
         data_matrix = cube[:, x, y]
 
-    elif data_format is "intensity":
+    elif data_format == "intensity":
         data_matrix = intensity_data(cube, noise_lim=noise_lim,
                                      p=p)
 
-- 
2.43.0


From e2401becebc454220dbf98e4a60141b5628a4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:31 +0000
Subject: [PATCH 38/51] fix: MVC.save_results leaves out all of the input data
 unless keep_data is set

---
 turbustat/statistics/mvc/mvc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 96e2ab3..d6bcaba 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -217,6 +217,7 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
 
         # Don't keep the whole cube unless keep_data enabled.
         if not keep_data:
+            self_copy._data = None
             self_copy._centroid = None
             self_copy._moment0 = None
             self_copy._linewidth = None
-- 
2.43.0


From 1205ebdfc5ea0e91b077ba36485e5d1826e9576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:31 +0000
Subject: [PATCH 39/51] fix: save_results leaves out the image kept by PDF
 unless keep_data is set

---
 turbustat/statistics/base_statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/base_statistic.py b/turbustat/statistics/base_statistic.py
index 4b9aa9d..ac2b7fa 100644
--- a/turbustat/statistics/base_statistic.py
+++ b/turbustat/statistics/base_statistic.py
@@ -146,6 +146,9 @@ class BaseStatisticMixIn(object):
         # Don't keep the whole cube unless keep_data enabled.
         if not keep_data:
             self_copy._data = None
+            # The PDF also keeps the whole image.
+            if hasattr(self_copy, 'img'):
+                self_copy.img = None
 
         with open(output_name, 'wb') as output:
                 pickle.dump(self_copy, output, -1)
-- 
2.43.0


From d664e68714ec62a613843443393feebb65b82278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:19 +0000
Subject: [PATCH 40/51] fix: the 2D fits use an azimuthal mask only when the
 current spectrum has one

---
 turbustat/statistics/base_pspec2.py | 4 ++--
 turbustat/statistics/scf/scf.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index b0330b0..f14f565 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -424,7 +424,7 @@ class StatisticBase_PSpec2D(object):
 
         mask = clip_func(freqs_dist, self.low_cut.value, self.high_cut.value)
 
-        if hasattr(self, "_azim_mask") and use_azimmask:
+        if getattr(self, "_azim_constraint_flag", False) and use_azimmask:
             mask = np.logical_and(mask, self._azim_mask)
 
         if not mask.any():
@@ -648,7 +648,7 @@ class StatisticBase_PSpec2D(object):
             if hasattr(self, 'fit2D'):
                 ax.contour(self.fit2D(xx_freq, yy_freq), cmap='viridis')
 
-            if hasattr(self, "_azim_mask"):
+            if getattr(self, "_azim_constraint_flag", False):
                 ax.contour(self._azim_mask, colors=[color], linestyles='--')
 
         good_interval = clip_func(self.freqs.value, self.low_cut.value,
diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index ca4ded2..437ef10 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -485,7 +485,7 @@ class SCF(BaseStatisticMixIn):
 
         mask = clip_func(dists, xlow_pix, xhigh_pix)
 
-        if hasattr(self, "_azim_mask") and use_azimmask:
+        if getattr(self, "_azim_constraint_flag", False) and use_azimmask:
             mask = np.logical_and(mask, self._azim_mask)
 
         if not mask.any():
-- 
2.43.0


From ac5a3b78e73f3f07b66c3fc0e85d1c1d729034fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:30 +0000
Subject: [PATCH 41/51] fix: brk_err is None whenever the fit has no break

---
 turbustat/statistics/base_pspec2.py                   | 3 ++-
 turbustat/statistics/delta_variance/delta_variance.py | 2 ++
 turbustat/statistics/wavelets/wavelet_transform.py    | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index f14f565..cea8866 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -277,9 +277,10 @@ class StatisticBase_PSpec2D(object):
                                without break.")
         else:
             self._brk = None
-            self._brk_err = None
 
         if self.brk is None:
+            self._brk_err = None
+
             x = sm.add_constant(x)
 
             if weighted_fit:
diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 6e7771c..b2ed9e7 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -410,6 +410,8 @@ class DeltaVariance(BaseStatisticMixIn):
         # model failed.
         if self.brk is None:
 
+            self._brk_err = None
+
             x = sm.add_constant(x)
 
             # model = sm.OLS(y, x, missing='drop')
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 4ac5a26..a744e62 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -353,6 +353,8 @@ class Wavelet(BaseStatisticMixIn):
         # model failed.
         if self.brk is None:
 
+            self._brk_err = None
+
             x = sm.add_constant(x)
 
             if weighted_fit:
-- 
2.43.0


From 636f9d9e7737d1c1ce80d2561c2f417db7444909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:53 +0000
Subject: [PATCH 42/51] fix: PDF.run uses the given bins instead of the bin
 centres of an earlier run

---
 turbustat/statistics/pdf/compare_pdf.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index f75846c..ce48233 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -75,6 +75,7 @@ class PDF(BaseStatisticMixIn):
             self._normalization_type = "None"
 
         self._bins = bins
+        self._input_bins = bins
 
         self._pdf = None
         self._ecdf = None
@@ -91,17 +92,16 @@ class PDF(BaseStatisticMixIn):
             Bins to compute the PDF from. Overrides initial bin input.
         '''
 
-        if bins is not None:
-            self._bins = bins
+        if bins is None:
+            bins = self._input_bins
 
         # If the number of bins is not given, use sqrt of data length.
-        if self.bins is None:
-            self._bins = np.sqrt(self.data.shape[0])
-            self._bins = int(np.round(self.bins))
+        if bins is None:
+            bins = int(np.round(np.sqrt(self.data.shape[0])))
 
         # norm_weights = np.ones_like(self.data) / self.data.shape[0]
 
-        self._pdf, bin_edges = np.histogram(self.data, bins=self.bins,
+        self._pdf, bin_edges = np.histogram(self.data, bins=bins,
                                             density=True)
                                             # weights=norm_weights)
 
-- 
2.43.0


From 8e91c517fc668c92d9899e6c1b25d112a724e93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:01 +0000
Subject: [PATCH 43/51] fix: Dendrogram_Distance.histogram_stat leaves the
 nbins setting unchanged

---
 .../statistics/dendrograms/dendro_stats.py    | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index ad47b4f..c0ec431 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -718,27 +718,27 @@ class Dendrogram_Distance(object):
         '''
 
         if self.nbins == "best":
-            self.nbins = [np.floor(np.sqrt((n1 + n2) / 2.)) for n1, n2 in
-                          zip(self.dendro1.numfeatures[:self.cutoff],
-                              self.dendro2.numfeatures[:self.cutoff])]
+            nbins = [np.floor(np.sqrt((n1 + n2) / 2.)) for n1, n2 in
+                     zip(self.dendro1.numfeatures[:self.cutoff],
+                         self.dendro2.numfeatures[:self.cutoff])]
         else:
-            self.nbins = [self.nbins] * \
+            nbins = [self.nbins] * \
                 len(self.dendro1.numfeatures[:self.cutoff])
 
-        self.nbins = np.array(self.nbins, dtype=int)
+        nbins = np.array(nbins, dtype=int)
 
         self.histograms1 = \
             np.empty((len(self.dendro1.numfeatures[:self.cutoff]),
-                      np.max(self.nbins)))
+                      np.max(nbins)))
         self.histograms2 = \
             np.empty((len(self.dendro2.numfeatures[:self.cutoff]),
-                      np.max(self.nbins)))
+                      np.max(nbins)))
 
         self.bins = []
 
         for n, (data1, data2, nbin) in enumerate(
                 zip(self.dendro1.values[:self.cutoff],
-                    self.dendro2.values[:self.cutoff], self.nbins)):
+                    self.dendro2.values[:self.cutoff], nbins)):
 
             stand_data1 = standardize(data1)
             stand_data2 = standardize(data2)
@@ -751,13 +751,13 @@ class Dendrogram_Distance(object):
             hist1 = np.histogram(stand_data1, bins=bins,
                                  density=True)[0]
             self.histograms1[n, :] = \
-                np.append(hist1, (np.max(self.nbins) -
+                np.append(hist1, (np.max(nbins) -
                                   bins.size + 1) * [np.nan])
 
             hist2 = np.histogram(stand_data2, bins=bins,
                                  density=True)[0]
             self.histograms2[n, :] = \
-                np.append(hist2, (np.max(self.nbins) -
+                np.append(hist2, (np.max(nbins) -
                                   bins.size + 1) * [np.nan])
 
             # Normalize
@@ -799,7 +799,7 @@ class Dendrogram_Distance(object):
             ax1.set_ylabel("ECDF")
             for n in range(len(self.dendro1.min_deltas[:self.cutoff])):
                 ax1.plot((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                         self.mecdf1[n, :][:self.nbins[n]],
+                         self.mecdf1[n, :][:nbins[n]],
                          plot_kwargs1['symbol'],
                          color=plot_kwargs1['color'])
             ax1.axes.xaxis.set_ticklabels([])
@@ -809,7 +809,7 @@ class Dendrogram_Distance(object):
             ax2.axes.yaxis.set_ticklabels([])
             for n in range(len(self.dendro2.min_deltas[:self.cutoff])):
                 ax2.plot((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                         self.mecdf2[n, :][:self.nbins[n]],
+                         self.mecdf2[n, :][:nbins[n]],
                          plot_kwargs2['symbol'],
                          color=plot_kwargs2['color'])
             ax3 = plt.subplot(2, 2, 3)
@@ -817,7 +817,7 @@ class Dendrogram_Distance(object):
             for n in range(len(self.dendro1.min_deltas[:self.cutoff])):
                 bin_width = self.bins[n][1] - self.bins[n][0]
                 ax3.bar((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                        self.histograms1[n, :][:self.nbins[n]],
+                        self.histograms1[n, :][:nbins[n]],
                         align="center", width=bin_width, alpha=0.25,
                         color=plot_kwargs1['color'])
 
@@ -826,7 +826,7 @@ class Dendrogram_Distance(object):
             for n in range(len(self.dendro2.min_deltas[:self.cutoff])):
                 bin_width = self.bins[n][1] - self.bins[n][0]
                 ax4.bar((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                        self.histograms2[n, :][:self.nbins[n]],
+                        self.histograms2[n, :][:nbins[n]],
                         align="center", width=bin_width, alpha=0.25,
                         color=plot_kwargs2['color'])
 
-- 
2.43.0


From efb81a4a340142a06544128f8ce1764e8c29fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:48 +0000
Subject: [PATCH 44/51] fix: PowerSpectrum accepts weights in every documented
 data type

---
 turbustat/statistics/pspec_bispec/pspec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index a377219..9e53972 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -10,7 +10,7 @@ from copy import copy
 from ..rfft_to_fft import rfft_to_fft
 from ..base_pspec2 import StatisticBase_PSpec2D
 from ..base_statistic import BaseStatisticMixIn
-from ...io import common_types, twod_types
+from ...io import common_types, twod_types, input_data
 from ..fitting_utils import check_fit_limits
 
 
@@ -53,7 +53,7 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
             # Get rid of all NaNs
             isnan = np.isnan(self.data)
 
-            weights = weights.copy()
+            weights = input_data(weights, no_header=True).copy()
             weights[np.isnan(weights)] = 0.0
             weights[isnan] = 0.0
 
-- 
2.43.0


From 21b5b39ce1280c72bcb2ac26b8de773886bc143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:03 +0000
Subject: [PATCH 45/51] fix: Genus keeps the header of a Projection or Slice

---
 turbustat/statistics/genus/genus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index f5f9f75..a9102a4 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -80,7 +80,7 @@ class Genus(BaseStatisticMixIn):
                  distance=None):
         super(Genus, self).__init__()
 
-        if isinstance(img, np.ndarray):
+        if isinstance(img, np.ndarray) and not hasattr(img, 'header'):
             self.need_header_flag = False
             self.data = input_data(img, no_header=True)
             self.header = None
-- 
2.43.0


From 953d7da8c90bc9109aa5ce68bb715c6dfb3a161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:20 +0000
Subject: [PATCH 46/51] fix: Genus_Distance hands the headers of its data sets
 on

---
 turbustat/statistics/genus/genus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index a9102a4..d507816 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -552,13 +552,15 @@ class Genus_Distance(object):
         img1 = standardize(img1)
         img2 = standardize(img2)
 
-        self.genus1 = Genus(img1, smoothing_radii=smoothing_radii, numpts=numpts,
+        self.genus1 = Genus((img1, hdr1),
+                            smoothing_radii=smoothing_radii, numpts=numpts,
                             min_value=min_value[0], max_value=max_value[0],
                             lowdens_percent=lowdens_percent[0],
                             highdens_percent=highdens_percent[0])
         self.genus1.run(**genus_kwargs)
 
-        self.genus2 = Genus(img2, smoothing_radii=smoothing_radii, numpts=numpts,
+        self.genus2 = Genus((img2, hdr2),
+                            smoothing_radii=smoothing_radii, numpts=numpts,
                             min_value=min_value[1], max_value=max_value[1],
                             lowdens_percent=lowdens_percent[1],
                             highdens_percent=highdens_percent[1])
-- 
2.43.0


From 7a23770c6180fa5d1caed681c9a9ee163ea90f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:37 +0000
Subject: [PATCH 47/51] fix: Dendrogram_Distance re-runs given analyses with
 its min_deltas

---
 turbustat/statistics/dendrograms/dendro_stats.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index c0ec431..311983d 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -554,11 +554,13 @@ class Dendrogram_Distance(object):
             self.dendro1 = dataset1
             # Check if we need to re-run the stat
             has_slope = hasattr(self.dendro1, "_tail_slope")
-            match_deltas = (self.dendro1.min_deltas == min_deltas).all()
+            match_deltas = np.array_equal(self.dendro1.min_deltas,
+                                          min_deltas)
             if not has_slope or not match_deltas:
                 warn("Dendrogram_Stats needs to be re-run for dataset1 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
+                self.dendro1.min_deltas = min_deltas
                 self.dendro1.run(verbose=False, make_hists=False,
                                  **dendro_kwargs)
         else:
@@ -573,11 +575,13 @@ class Dendrogram_Distance(object):
             self.dendro2 = dataset2
             # Check if we need to re-run the stat
             has_slope = hasattr(self.dendro2, "_tail_slope")
-            match_deltas = (self.dendro2.min_deltas == min_deltas).all()
+            match_deltas = np.array_equal(self.dendro2.min_deltas,
+                                          min_deltas)
             if not has_slope or not match_deltas:
                 warn("Dendrogram_Stats needs to be re-run for dataset2 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
+                self.dendro2.min_deltas = min_deltas
                 self.dendro2.run(verbose=False, make_hists=False,
                                  **dendro2_kwargs)
         else:
-- 
2.43.0


From 62c9d1c7dd583adc9e88f0267479d60bd9cbe274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:37 +0000
Subject: [PATCH 48/51] fix: DeltaVariance_Distance accepts analyses with
 another number of lags

---
 .../statistics/delta_variance/delta_variance.py      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index b2ed9e7..fe0829c 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -735,6 +735,12 @@ class DeltaVariance_Distance(object):
             _given_data2 = True
             dataset2 = copy(input_data(dataset2, no_header=False))
 
+        # As in DeltaVariance, lags without a unit are in pixels
+        if lags is not None and not hasattr(lags, "value"):
+            lags = lags * u.pix
+        if lags2 is not None and not hasattr(lags2, "value"):
+            lags2 = lags2 * u.pix
+
         self._common_lags = use_common_lags
 
         # Create a default set of lags, in pixels
@@ -803,7 +809,8 @@ class DeltaVariance_Distance(object):
         else:
             # Check if we need to re-run the statistic if the lags are wrong.
             if lags1 is not None:
-                if not (self.delvar1.lags == lags1).all():
+                lags1 = self.delvar1._to_pixel(lags1)
+                if not np.array_equal(self.delvar1.lags.value, lags1.value):
                     self.delvar1._lags = lags1
                     self.delvar1.run(**delvar_kwargs)
 
@@ -824,7 +831,8 @@ class DeltaVariance_Distance(object):
             self.delvar2.run(**delvar2_kwargs)
         else:
             if lags2 is not None:
-                if not (self.delvar2.lags == lags2).all():
+                lags2 = self.delvar2._to_pixel(lags2)
+                if not np.array_equal(self.delvar2.lags.value, lags2.value):
                     self.delvar2._lags = lags2
                     self.delvar2.run(**delvar2_kwargs)
 
-- 
2.43.0


From 8cf2cad30820752157ffac9feee077b452c0d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:37 +0000
Subject: [PATCH 49/51] fix: DeltaVariance keeps lags set later in pixels

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index fe0829c..9e3f218 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -116,7 +116,7 @@ class DeltaVariance(BaseStatisticMixIn):
                              " the image size. Remove these lags from the "
                              "array.")
 
-        self._lags = values
+        self._lags = pix_lags
 
     @property
     def weights(self):
-- 
2.43.0


From ac0f331572c0671e2f763869ab73e34091d2c12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:11 +0000
Subject: [PATCH 50/51] fix: Wavelet reports the break scale as a length

---
 turbustat/statistics/wavelets/wavelet_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index a744e62..6602eff 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -322,7 +322,7 @@ class Wavelet(BaseStatisticMixIn):
                     x = x[good_pts]
                     y = y[good_pts]
 
-                    self._brk = 10**model.brk / u.pix
+                    self._brk = 10**model.brk * u.pix
 
                     self._slope = model.slopes
 
@@ -332,12 +332,12 @@ class Wavelet(BaseStatisticMixIn):
 
                         self._slope_err = stderrs[1:-1]
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] / u.pix
+                            stderrs[-1] * u.pix
 
                     else:
                         self._slope_err = model.slope_errs
                         self._brk_err = np.log(10) * self.brk.value * \
-                            model.brk_err / u.pix
+                            model.brk_err * u.pix
 
                     self.fit = model.fit
 
-- 
2.43.0


From c18fca83eab83e1c33ed57e790e0d931145cf005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:32 +0000
Subject: [PATCH 51/51] fix: distance classes accept one break given as a
 Quantity

---
 turbustat/statistics/mvc/mvc.py            | 2 +-
 turbustat/statistics/pspec_bispec/pspec.py | 2 +-
 turbustat/statistics/vca_vcs/vca.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index d6bcaba..7e55785 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -384,7 +384,7 @@ class MVC_Distance(object):
 
         low_cut, high_cut = check_fit_limits(low_cut, high_cut)
 
-        if not isinstance(breaks, list) and not isinstance(breaks, np.ndarray):
+        if not isinstance(breaks, list) and np.ndim(breaks) == 0:
             breaks = [breaks] * 2
 
         if pspec2_kwargs is None:
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 9e53972..0578fa9 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -263,7 +263,7 @@ class PSpec_Distance(object):
 
         low_cut, high_cut = check_fit_limits(low_cut, high_cut)
 
-        if not isinstance(breaks, list) and not isinstance(breaks, np.ndarray):
+        if not isinstance(breaks, list) and np.ndim(breaks) == 0:
             breaks = [breaks] * 2
 
         if pspec2_kwargs is None:
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 7e191fc..85a6a72 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -269,7 +269,7 @@ class VCA_Distance(object):
 
         low_cut, high_cut = check_fit_limits(low_cut, high_cut)
 
-        if not isinstance(breaks, list) and not isinstance(breaks, np.ndarray):
+        if not isinstance(breaks, list) and np.ndim(breaks) == 0:
             breaks = [breaks] * 2
 
         if radial_pspec_kwargs2 is None:
-- 
2.43.0

