From 7be8536e8c045893ad2c8029ce9babce8974f908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 01/36] fix: take the maximum posterior row by position, not by
 index label

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 6f560c4..586aab3 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -197,7 +197,7 @@ class Chain(ChainConfig):
             logging.warning("No posterior column found, cannot find max posterior")
             return None
         argmax = self.samples[self.posterior_column].argmax()
-        return self.samples.loc[argmax]  # type: ignore
+        return self.samples.iloc[argmax]  # type: ignore
 
     @property
     def weights(self) -> np.ndarray:
-- 
2.43.0


From fcedb5d2b0be0e706f6a97e74741b6047066facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 02/36] fix: shift_params only shifts parameters, not weights
 or posteriors

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 586aab3..ce24fca 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -260,7 +260,7 @@ class Chain(ChainConfig):
 
         # Apply the mean shift if it is set to true
         if self.shift_params:
-            for param in self.samples:
+            for param in self.data_columns:
                 self.samples[param] -= np.average(self.samples[param], weights=self.weights)  # type: ignore
 
         # Check the walkers
-- 
2.43.0


From 1598d6f3a13ad354a3aac110e5618ee9eafb4cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 03/36] fix: dividing a shifted chain does not shift each
 walker again

---
 src/chainconsumer/chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index ce24fca..6a9c686 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -348,6 +348,7 @@ class Chain(ChainConfig):
         for i, split in enumerate(splits):
             df = pd.DataFrame(split, columns=self.samples.columns)
             options = self.model_dump(exclude={"samples", "name", "walkers"})
+            options["shift_params"] = False  # The samples have already been shifted
             if "color" in options:
                 options.pop("color")
             chain = Chain(samples=df, name=f"{self.name} Walker {i}", **options)
-- 
2.43.0


From 9b1df22f2b274eb8521eec1e5fddecad226cff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 04/36] fix: blinded log-scaled axes show no major or minor
 tick labels

---
 src/chainconsumer/plotter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index f471865..de053ba 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -391,6 +391,7 @@ class Plotter:
 
                 if p in base.blind:
                     ax.set_yticks([])
+                    ax.set_yticks([], minor=True)
             else:  # noqa: PLR5501
                 if i == 0 and plot_posterior:
                     for chain in base.chains:
@@ -500,6 +501,7 @@ class Plotter:
                 ax.set_xscale("log")
             if p in base.blind:
                 ax.set_xticks([])
+                ax.set_xticks([], minor=True)
             else:
                 if self.config.diagonal_tick_labels:
                     _ = [label.set_rotation(45) for label in ax.get_xticklabels()]
@@ -637,12 +639,13 @@ class Plotter:
                     ax.spines["top"].set_visible(False)
                 if i < (num_chains - 1):
                     ax.spines["bottom"].set_visible(False)
+                if p in base.log_scales:
+                    ax.set_xscale("log")
                 if i < (num_chains - 1) or p in base.blind:
                     ax.set_xticks([])
+                    ax.set_xticks([], minor=True)
                 ax.set_yticks([])
                 ax.set_xlim(base.extents[p])
-                if p in base.log_scales:
-                    ax.set_xscale("log")
 
                 # Put title in
                 if i == 0:
@@ -858,6 +861,7 @@ class Plotter:
                             ax.xaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         ax.set_xticks([])
+                        ax.set_xticks([], minor=True)
                     if display_y_ticks:
                         if self.config.diagonal_tick_labels:
                             _ = [label.set_rotation(45) for label in ax.get_yticklabels()]
@@ -869,6 +873,7 @@ class Plotter:
                             ax.yaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         ax.set_yticks([])
+                        ax.set_yticks([], minor=True)
                     if (i != j or not self.config.plot_hists) or (self.config.flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
-- 
2.43.0


From 231d0840f5ab60c6f9d9794db759dd88257fb74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 05/36] fix: the colour bar of a blinded parameter shows no
 values

---
 src/chainconsumer/plotter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index de053ba..f9280f0 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -242,6 +242,8 @@ class Plotter:
                 elif label == "posterior":
                     label = "log(Posterior)"
                 cbar.set_label(label, fontsize=self.config.label_font_size)
+                if self.config.blind is True or column in base.blind:
+                    cbar.set_ticks([])
                 if cbar.solids is not None:
                     cbar.solids.set(alpha=1)
 
-- 
2.43.0


From 0f6513ea990cfa58828c3e2a656be8310f2dfe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 06/36] fix: plot_distributions draws truths on the parameter
 axis

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index f9280f0..40cf238 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -525,7 +525,7 @@ class Plotter:
                     m = self._plot_bars(ax, p, chain, summary=param_summary)
                     if max_val is None or m > max_val:
                         max_val = m
-            plot_truths(ax, self.parent._truths, py=p)
+            plot_truths(ax, self.parent._truths, px=p)
             ax.set_ylim(0, 1.1 * max_val)
             ax.set_xlabel(p, fontsize=self.config.label_font_size)
 
-- 
2.43.0


From 66382708e1363c5f0c4bfe5ed03b51e2d29c2579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 07/36] fix: plot_distributions uses the configured parameter
 labels

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 40cf238..a6d602e 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -527,7 +527,7 @@ class Plotter:
                         max_val = m
             plot_truths(ax, self.parent._truths, px=p)
             ax.set_ylim(0, 1.1 * max_val)
-            ax.set_xlabel(p, fontsize=self.config.label_font_size)
+            ax.set_xlabel(self.config.get_label(p), fontsize=self.config.label_font_size)
 
         add_watermark(fig, None, figsize, self.config, size_scale=0.8)
         self._save_fig(fig, filename, dpi=self.config.dpi)
-- 
2.43.0


From f4abf3522af4265c333bc13c6f7e65fd28a02e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 08/36] fix: the KDE bandwidth scales the kernel width of
 contours instead of its truncation

---
 src/chainconsumer/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 24d5d3e..e4a8cf9 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -114,7 +114,7 @@ def get_smoothed_histogram2d(
         xx, yy = np.meshgrid(x_centers, y_centers, indexing="ij")
         coords = np.vstack((xx.flatten(), yy.flatten())).T
         data = np.vstack((x, y)).T
-        hist = MegKDE(data, w, chain.kde).evaluate(coords).reshape((nn, nn))
+        hist = MegKDE(data, w, factor=float(chain.kde)).evaluate(coords).reshape((nn, nn))
         if chain.power is not None:
             hist = hist**chain.power
     elif chain.smooth_value:
-- 
2.43.0


From 7704f1a8c1d3cacc1f53ed7cf61f2abcaeb93ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 09/36] fix: apply power to one dimensional KDE marginals

---
 src/chainconsumer/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 464e067..f67aa1e 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -352,6 +352,8 @@ class Analysis:
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
             area = simps(ys, x=kde_xs)
             ys = ys / area
+            if chain.power is not None:
+                ys = ys**chain.power
             ys = interp1d(kde_xs, ys, kind="linear")(xs)
         else:
             ys = interp1d(edge_centers, hist, kind="linear")(xs)
-- 
2.43.0


From 2131e8460027ada7d9bec15562c9f10df6134a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 10/36] fix: size the KDE grid by the number of bins, not by
 the parameter values

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index f67aa1e..6a9cc70 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -347,7 +347,7 @@ class Analysis:
             use_kde = bool(chain.kde)
 
         if use_kde:
-            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, int(bins.max())))
+            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, bins.size))
             factor = chain.kde if isinstance(chain.kde, int | float) else 1.0
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
             area = simps(ys, x=kde_xs)
-- 
2.43.0


From 43a9f70a6f2bb8e1540612b00495ee8d8cd513a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 11/36] fix: plot_summary sets each y limit on the panel of its
 own parameter

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index a6d602e..7264656 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -677,7 +677,7 @@ class Plotter:
                         max_vals[p] = m
 
         for axes_row in axes:
-            for ax, p in zip(axes_row, base.columns, strict=False):
+            for ax, p in zip(axes_row[1:], base.columns, strict=False):
                 if not errorbar:
                     ax.set_ylim(0, 1.1 * max_vals[p])
 
-- 
2.43.0


From 3d40b549aa411284aedef90ca3331aa985497d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 12/36] fix: covariance of a single column is a 1x1 matrix

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 6a9c686..bc7cf10 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -380,7 +380,7 @@ class Chain(ChainConfig):
         """
         if columns is None:
             columns = self.data_columns
-        cov = np.cov(self.samples[columns], rowvar=False, aweights=self.weights)
+        cov = np.atleast_2d(np.cov(self.samples[columns], rowvar=False, aweights=self.weights))
         return Named2DMatrix(columns=columns, matrix=cov)
 
     def get_correlation(self, columns: list[str] | None = None) -> Named2DMatrix:
-- 
2.43.0


From cbd81cb5e4dfc544a2716c2f507a9885d13b1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 13/36] fix: percent signs in table captions and labels appear
 literally

---
 src/chainconsumer/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index e4a8cf9..5975e9c 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -131,6 +131,8 @@ def get_grid_bins(data: pd.Series[float]) -> np.ndarray:
 
 
 def get_latex_table_frame(caption: str, label: str) -> str:  # pragma: no cover
+    # The result is used as a %-format string
+    caption, label = caption.replace("%", "%%"), label.replace("%", "%%")
     base_string = rf"""\begin{{table}}
     \centering
     \caption{{{caption}}}
-- 
2.43.0


From 509a660c4c1f8a29ce74b1bd86b048bfd982ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 14/36] fix: the comparison table declares one column per shown
 criterion

---
 src/chainconsumer/comparisons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/comparisons.py b/src/chainconsumer/comparisons.py
index 70a9ae5..131fdad 100644
--- a/src/chainconsumer/comparisons.py
+++ b/src/chainconsumer/comparisons.py
@@ -179,7 +179,7 @@ class Comparison:
 
         base_string = get_latex_table_frame(caption, label)
         end_text = " \\\\ \n"
-        num_cols = 1 + (1 if aic else 0) + (1 if bic else 0)
+        num_cols = (1 if aic else 0) + (1 if bic else 0) + (1 if dic else 0)
         column_text = "c" * (num_cols + 1)
         center_text = ""
         hline_text = "\\hline\n"
-- 
2.43.0


From 207689c573da6c598cdecbc0ef975cd6a3140173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 15/36] fix: colour alias e resolves to gray

---
 src/chainconsumer/color_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 55d6ec5..f347568 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -48,7 +48,7 @@ class Colors:
             "y": "yellow",
             "a": "amber",
             "p": "purple",
-            "e": "grey",
+            "e": "gray",
             "lg": "lime",
             "lb": "sky",
             "black": "gray",
-- 
2.43.0


From f4bf2c0944402c1cfa7240914ba51f4db2871172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 16/36] fix: rescaling a colour always returns a hex colour

---
 src/chainconsumer/color_finder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index f347568..a2a8590 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -109,8 +109,10 @@ class Colors:
 
     def scale_colour(self, color: ColorInput, scalefactor: float) -> str:  # pragma: no cover
         hexx = self.format(color).strip("#")
+        if len(hexx) == 3:
+            hexx = "".join(2 * h for h in hexx)
         if scalefactor < 0 or len(hexx) != 6:
-            return hexx
+            return f"#{hexx}"
         r, g, b = int(hexx[:2], 16), int(hexx[2:4], 16), int(hexx[4:], 16)
         r = self._clamp(int(r * scalefactor))
         g = self._clamp(int(g * scalefactor))
-- 
2.43.0


From a9e15dcd6bd963a67f72861c39896b8058e7a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 17/36] fix: make_sample is reproducible for a given seed

---
 src/chainconsumer/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/examples.py b/src/chainconsumer/examples.py
index b299e7d..d10a9ae 100644
--- a/src/chainconsumer/examples.py
+++ b/src/chainconsumer/examples.py
@@ -19,7 +19,7 @@ def make_sample(
     if randomise_mean:
         means += gen.uniform(-1, 1, num_dimensions)
     norm = mv(mean=means, cov=cor)
-    samples = norm.rvs(size=num_points)
+    samples = norm.rvs(size=num_points, random_state=gen)
     # Use the letters of the alphabet as the column names
     columns = [chr(65 + i) for i in range(num_dimensions)]
     return pd.DataFrame(samples, columns=columns).assign(log_posterior=norm.logpdf(samples))
-- 
2.43.0


From 3453ac00a6d1a2a06c058f5bc164d3c1aff2270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 18/36] fix: HDI width tolerance is relative to the range of
 the parameter

---
 src/chainconsumer/analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 6a9cc70..d4a6c23 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -529,6 +529,7 @@ class Analysis:
         x_points = np.concatenate(([xs[0]], xs))
 
         eps = 1e-12
+        eps_width = eps * float(x_points[-1] - x_points[0])
         best_width = float("inf")
         best_lower = float(x_points[0])
         best_upper = float(x_points[-1])
@@ -556,10 +557,10 @@ class Analysis:
             lower = float(x_points[start_idx])
             upper = float(x_points[end_idx])
             width = upper - lower
-            if width <= eps:
+            if width <= eps_width:
                 continue
 
-            if width < best_width - eps:
+            if width < best_width - eps_width:
                 best_width = width
                 best_lower = lower
                 best_upper = upper
-- 
2.43.0


From 37be6864a3e900a8bc291aea350607ce8fb287a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 19/36] fix: HDI threshold tolerance is relative to the peak
 density

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index d4a6c23..e05ffb8 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -602,7 +602,7 @@ class Analysis:
             bracket=(0.0, float(np.max(density))),
             args=(density, xs, chain.summary_area),
             method="bisect",
-            xtol=5e-4,
+            xtol=5e-4 * float(np.max(density)),
         )
 
         threshold = sol.root
-- 
2.43.0


From b3bbddbeeed770f73e8555ebb76b263899266d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 20/36] fix: the DIC does not depend on the units of the
 parameters

---
 src/chainconsumer/comparisons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/comparisons.py b/src/chainconsumer/comparisons.py
index 131fdad..697ba88 100644
--- a/src/chainconsumer/comparisons.py
+++ b/src/chainconsumer/comparisons.py
@@ -43,7 +43,7 @@ class Comparison:
             else:
                 means = np.array([np.average(chain.samples[c], weights=chain.weights) for c in chain.data_columns])
                 d = -2 * p
-                d_of_mean = griddata(chain.data_samples, d, means, method="nearest")[0]
+                d_of_mean = griddata(chain.data_samples, d, means, method="nearest", rescale=True)[0]
                 mean_d = np.average(d, weights=chain.weights)
                 p_d = mean_d - d_of_mean
                 dic = mean_d + p_d
-- 
2.43.0


From 2417e6d6e34499148a8a1b4897edc328d6e26d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 21/36] fix: a truth location can be given as a pandas series

---
 src/chainconsumer/truth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/truth.py b/src/chainconsumer/truth.py
index db84b6a..7d5d8cb 100644
--- a/src/chainconsumer/truth.py
+++ b/src/chainconsumer/truth.py
@@ -2,7 +2,7 @@ from typing import Any
 
 import pandas as pd
 from matplotlib.lines import Line2D
-from pydantic import Field, ValidationError, field_validator, model_validator
+from pydantic import Field, field_validator, model_validator
 
 from .base import BetterBase
 from .color_finder import ColorInput
@@ -30,14 +30,14 @@ class Truth(BetterBase):
         default=_DEFAULT_EDGE_WIDTH, description="The truth marker edge width for the contour plots"
     )
 
-    @field_validator("location")
+    @field_validator("location", mode="before")
     @classmethod
     def _ensure_dict(cls, v):
         if isinstance(v, dict):
             return v
         elif isinstance(v, pd.Series):
             return v.to_dict()
-        raise ValidationError("Truth must be a dict or a pandas Series")
+        raise ValueError("Truth must be a dict or a pandas Series")
 
     @model_validator(mode="after")
     def validate_model(self):
-- 
2.43.0


From b21913cae4ac87e95a381f0e9c7411627c92f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 22/36] fix: text of empty or partially constrained multimodal
 bounds

---
 src/chainconsumer/analysis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index e05ffb8..71f76a1 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -409,10 +409,16 @@ class Analysis:
 
         # Fallback to single bound behavior if there is only one mode identified
         if isinstance(bound, Sequence) and len(bound) < 2:
+            if not bound:
+                return ""
             bound = bound[0]
 
         if isinstance(bound, Sequence) and not isinstance(bound, Bound):
-            bounds = [b for b in bound if isinstance(b, Bound) and not b.all_none]
+            bounds = [
+                b
+                for b in bound
+                if isinstance(b, Bound) and b.lower is not None and b.center is not None and b.upper is not None
+            ]
             if not bounds:
                 return ""
 
-- 
2.43.0


From 94563f12378cd530aeb6c6cf56e903591ff02671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 23/36] fix: shade alpha is finite when no chain plots contours

---
 src/chainconsumer/chainconsumer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index a6037e9..a9dffda 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -159,7 +159,7 @@ class ChainConsumer:
         global_config["bar_shade"] = num_chains < 5
         global_config["sigmas"] = [0, 1, 2]
         global_config["shade"] = num_chains < 5
-        global_config["shade_alpha"] = 1.0 / np.sqrt(num_chains)
+        global_config["shade_alpha"] = 1.0 / np.sqrt(max(1, num_chains))
 
         color_iter = colors.next_colour()
 
-- 
2.43.0


From 85160d19998d83492b1f3e726be488b6e6eb4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 24/36] fix: plot_dist draws the normalised marginal with the
 chosen bandwidth, grid and power

---
 src/chainconsumer/plotting/contours.py | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 1dabfc4..5aba3e9 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -2,7 +2,6 @@ import numpy as np
 from matplotlib.axes import Axes
 from matplotlib.collections import PathCollection
 from scipy.interpolate import interp1d
-from scipy.ndimage import gaussian_filter
 from scipy.stats import norm
 
 from ..chain import Chain, ColumnName
@@ -86,28 +85,10 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
 
     # Create histogram based on chain settings (following _plot_bars logic from plotter.py)
     if chain.smooth_value or chain.kde:
-        # Use KDE or smoothed histogram
-        from ..helpers import get_bins, get_smoothed_bins
-
-        if chain.kde:
-            from ..kde import MegKDE
-
-            bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
-            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, chain.kde)
-            xs = np.linspace(bins.min(), bins.max(), 1000)
-            ys = kde.evaluate(xs.reshape(-1, 1)).flatten()
-            if chain.power is not None:
-                ys = ys**chain.power
-        else:
-            # Smoothed histogram
-            bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
-            hist, edges = np.histogram(data, bins=bins, density=True, weights=chain.weights)
-            if chain.power is not None:
-                hist = hist**chain.power
-            hist = gaussian_filter(hist, chain.smooth_value, mode="reflect")
-            xs = 0.5 * (edges[:-1] + edges[1:])
-            ys = hist
+        # The same (possibly KDE) marginal as the one used by the plotter and the summaries
+        from ..analysis import Analysis
 
+        xs, ys, _ = Analysis(None)._get_smoothed_histogram(chain, px, pad=True)  # type: ignore
         ys *= chain.histogram_relative_height
         ax.plot(xs, ys, color=chain.color, ls=chain.linestyle, lw=chain.linewidth, zorder=chain.zorder)
     else:
-- 
2.43.0


From 02946606393747bb2a3265dc149839e5c8061681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 25/36] fix: plot_dist titles use the configured parameter
 label

---
 src/chainconsumer/plotting/contours.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 5aba3e9..2dfb744 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -154,7 +154,8 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
         if summary and fit_values is not None:
             parameter_text = analysis.get_parameter_text(fit_values, wrap=False)
 
-            text = rf"${px} = {parameter_text}$" if parameter_text else rf"${px} = {fit_values.center}$"
+            label = config.get_label(px).strip("$")
+            text = rf"${label} = {parameter_text}$" if parameter_text else rf"${label} = {fit_values.center}$"
 
             ax.set_title(text, fontsize=config.summary_font_size, pad=10)
 
-- 
2.43.0


From 3c352eb30e792f018d01bc4e7b5a897e5d960c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 26/36] fix: plot_dist shading stays within the valid alpha
 range

---
 src/chainconsumer/plotting/contours.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 2dfb744..4245fa7 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -139,7 +139,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
 
                 # Use shade_gradient to control the opacity of the confidence interval shading
                 # shade_gradient scales the alpha value (higher = more opaque)
-                effective_alpha = chain.shade_alpha * (0.2 + 0.8 * chain.shade_gradient)
+                effective_alpha = min(1.0, chain.shade_alpha * (0.2 + 0.8 * chain.shade_gradient))
 
                 ax.fill_between(
                     x,
-- 
2.43.0


From a4147779c36be1c97dc2a9b615f75a38e2cfe477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 27/36] fix: flip only changes the last panel when the
 histogram is actually flipped

With flip=True and anything but two parameters the last diagonal panel is
drawn upright, but its log scale was put on the density axis, its x ticks
and label were removed and the y limits of the second diagonal panel were
set from the parameter.
---
 src/chainconsumer/plotter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 7264656..e276f68 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -781,7 +781,8 @@ class Plotter:
             spacing = 1.0 if n < 6 else 0.0
 
         gridspec_kw = {}
-        if n == 2 and self.config.plot_hists and self.config.flip:
+        flip = n == 2 and self.config.plot_hists and self.config.flip
+        if flip:
             gridspec_kw = {"width_ratios": [3, 1], "height_ratios": [1, 3]}
 
         fig, axes = plt.subplots(n, n, figsize=figsize, squeeze=False, gridspec_kw=gridspec_kw)
@@ -821,7 +822,7 @@ class Plotter:
                     logy = False
                     if p1 == p2:
                         if p1 in base.log_scales:
-                            if self.config.flip and j == n - 1:
+                            if flip and j == n - 1:
                                 ax.set_yscale("log")
                                 logy = True
                             else:
@@ -834,7 +835,7 @@ class Plotter:
                         if p2 in base.log_scales:
                             ax.set_xscale("log")
                             logx = True
-                    if i != n - 1 or (self.config.flip and j == n - 1):
+                    if i != n - 1 or (flip and j == n - 1):
                         ax.set_xticks([])
                     else:
                         if p2 in base.blind:
@@ -876,7 +877,7 @@ class Plotter:
                     else:
                         ax.set_yticks([])
                         ax.set_yticks([], minor=True)
-                    if (i != j or not self.config.plot_hists) or (self.config.flip and i == 1):
+                    if (i != j or not self.config.plot_hists) or (flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
 
-- 
2.43.0


From 525fd0a8f634df02068ab3447433b8184812eea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 28/36] fix: give chains with an explicit color of None a
 palette colour

---
 src/chainconsumer/chainconsumer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index a9dffda..6206bc3 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -171,9 +171,9 @@ class ChainConsumer:
             if chain.show_contour_labels:
                 local_config["shade_alpha"] *= 0.5
 
-            # Check to see if the color is set
+            # Check to see if the color is set. An explicit None is the same as not setting it.
             if chain.color is None:
-                local_config["color"] = next(color_iter)
+                chain.color = next(color_iter)
 
             chain._apply_if_not_user_set(**local_config)
 
-- 
2.43.0


From 01e936dabc3628f92ec585c1ebc3c3b57f576f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 29/36] fix: treat an empty var_names as all variables, as
 documented

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index bc7cf10..aabf9eb 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -501,7 +501,7 @@ def _filter_var_names(var_names: list[str] | None, all_vars: list[str]) -> list[
     Helper function to return the var_names to allows filtering parameters names.
     """
 
-    if var_names is None:
+    if not var_names:
         return all_vars
 
     negations = set([var.startswith("~") for var in var_names])
-- 
2.43.0


From 8fa4df08f45efa4403ba2d94a69f5cdf3ec7013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 30/36] fix: apply the label and tick font sizes to the panels
 of plot_walks

---
 src/chainconsumer/plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index e276f68..6c6b80a 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1040,7 +1040,8 @@ class Plotter:
         assert convolve is None or isinstance(convolve, int), "Convolve must be an integer pixel window width"
         x = np.arange(data.size)
         ax.set_xlim(0, x[-1])
-        ax.set_ylabel(self.config.get_label(column))
+        ax.set_ylabel(self.config.get_label(column), fontsize=self.config.label_font_size)
+        _ = [label.set_fontsize(self.config.tick_font_size) for label in ax.get_yticklabels()]
         if color is None:
             color = "#0345A1"
         ax.scatter(x, data, c=color, s=2, marker=".", edgecolors="none", alpha=0.5)
-- 
2.43.0


From c3c5a72504b171a8a47acea1c284287668db22e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 31/36] fix: apply tick_font_size and max_ticks to the panels
 of plot_summary

---
 src/chainconsumer/plotter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 6c6b80a..1649a7f 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -646,6 +646,12 @@ class Plotter:
                 if i < (num_chains - 1) or p in base.blind:
                     ax.set_xticks([])
                     ax.set_xticks([], minor=True)
+                else:
+                    _ = [label.set_fontsize(self.config.tick_font_size) for label in ax.get_xticklabels()]
+                    if p in base.log_scales:
+                        ax.xaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
+                    else:
+                        ax.xaxis.set_major_locator(MaxNLocator(self.config.max_ticks, prune="lower"))
                 ax.set_yticks([])
                 ax.set_xlim(base.extents[p])
 
-- 
2.43.0


From c1f93fda7b7d297401f2461227aa7381cea0b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 32/36] fix: format a bound whose centre and both errors are
 zero

---
 src/chainconsumer/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 71f76a1..6feec76 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -458,8 +458,10 @@ class Analysis:
             resolution = np.floor(np.log10(np.abs(lower_error)))
         elif upper_error != 0 and lower_error == 0:
             resolution = np.floor(np.log10(np.abs(upper_error)))
-        else:
+        elif bound.center != 0:
             resolution = np.floor(np.log10(np.abs(bound.center)))
+        else:
+            resolution = 0
         factor = 0
         fmt = "%0.1f"
         r = 1
-- 
2.43.0


From 1bc541d377a6c6f5e3aff7c5b46ff877651367c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 33/36] fix: plot_walks keeps the longest chain in view

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 1649a7f..eceedd7 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1045,7 +1045,7 @@ class Plotter:
             ax.set_ylim(extents)
         assert convolve is None or isinstance(convolve, int), "Convolve must be an integer pixel window width"
         x = np.arange(data.size)
-        ax.set_xlim(0, x[-1])
+        ax.set_xlim(0, max(x[-1], ax.get_xlim()[1]))
         ax.set_ylabel(self.config.get_label(column), fontsize=self.config.label_font_size)
         _ = [label.set_fontsize(self.config.tick_font_size) for label in ax.get_yticklabels()]
         if color is None:
-- 
2.43.0


From e800fbeff3af2849c42083af4cf799950f6789ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 34/36] fix: plot_distributions of a parameter for which no
 chain has a histogram

---
 src/chainconsumer/plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index eceedd7..15318a6 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -526,7 +526,8 @@ class Plotter:
                     if max_val is None or m > max_val:
                         max_val = m
             plot_truths(ax, self.parent._truths, px=p)
-            ax.set_ylim(0, 1.1 * max_val)
+            if np.isfinite(max_val):
+                ax.set_ylim(0, 1.1 * max_val)
             ax.set_xlabel(self.config.get_label(p), fontsize=self.config.label_font_size)
 
         add_watermark(fig, None, figsize, self.config, size_scale=0.8)
-- 
2.43.0


From 035748d300956c8b44e02f1a129f5fa704d3df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:11 +0000
Subject: [PATCH 35/36] fix: plot_walks and plot_summary ranges include chains
 drawn without contours

---
 src/chainconsumer/plotter.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 15318a6..3025487 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -348,6 +348,7 @@ class Plotter:
             self.config.extents,
             blind=self.config.blind,
             log_scales=self.config.log_scales,
+            all_samples=True,
         )
 
         n = len(base.columns)
@@ -584,6 +585,7 @@ class Plotter:
             blind=self.config.blind,
             log_scales=self.config.log_scales,
             wide_extents=wide_extents,
+            all_samples=True,
         )
 
         # We have a bit of fun to go from chain names to the width of the
@@ -731,10 +733,13 @@ class Plotter:
         blind: bool | list[ColumnName] | None = None,
         log_scales: list[ColumnName] | None = None,
         wide_extents: bool = True,
+        all_samples: bool = False,
     ) -> PlottingBase:
         final_chains = self._sanitise_chains(chains)
         final_columns = self._sanitise_columns(columns, final_chains)
-        extents = self._get_custom_extents(final_columns, final_chains, extents, wide_extents=wide_extents)
+        extents = self._get_custom_extents(
+            final_columns, final_chains, extents, wide_extents=wide_extents, all_samples=all_samples
+        )
         self.set_rc_params()
 
         return PlottingBase(
@@ -767,13 +772,16 @@ class Plotter:
         chains: list[Chain],
         initial_extents: dict[ColumnName, tuple[float, float]] | None,
         wide_extents: bool = True,
+        all_samples: bool = False,
     ) -> dict[ColumnName, tuple[float, float]]:  # pragma: no cover
         if initial_extents is None:
             initial_extents = {}
         extents = {} | initial_extents
         for p in columns:
             if p not in initial_extents:
-                extents[p] = self._get_parameter_extents(p, chains, wide_extents=wide_extents)
+                extents[p] = self._get_parameter_extents(
+                    p, chains, wide_extents=wide_extents, all_samples=all_samples
+                )
         return extents
 
     def _get_triangle_figure(
@@ -891,7 +899,7 @@ class Plotter:
         return fig, axes, params_x, params_y
 
     def _get_parameter_extents(
-        self, column: ColumnName, chains: list[Chain], wide_extents: bool = True
+        self, column: ColumnName, chains: list[Chain], wide_extents: bool = True, all_samples: bool = False
     ) -> tuple[float, float]:
         min_val, max_val = np.inf, -np.inf
         for chain in chains:
@@ -900,7 +908,7 @@ class Plotter:
 
             data = chain.get_data(column)
             min_prop, max_prop = np.inf, -np.inf
-            if chain.plot_contour or chain.plot_cloud:
+            if all_samples or chain.plot_contour or chain.plot_cloud:
                 if chain.grid:
                     min_prop = data.min()
                     max_prop = data.max()
-- 
2.43.0


From 6a91936014f1bd81b1b8826c7566051b629fb614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 36/36] fix: title of a multimodal chain with one interval
 states the summary it shades

---
 src/chainconsumer/plotter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 3025487..ab4b6db 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -995,6 +995,7 @@ class Plotter:
 
                     # If we get a single interval, fallback to unimodal HDI
                     if len(intervals) < 2:
+                        display_bounds = base_bound
                         intervals = [(base_bound.lower, base_bound.upper)]
 
                 else:
-- 
2.43.0

