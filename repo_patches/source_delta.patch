From 112b310e962e412e6b956290d085aed49c8d5a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 01/54] fix: shift_params must only shift parameters, not the
 weight and posterior columns

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 6f560c4..cbde1c4 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -260,7 +260,7 @@ class Chain(ChainConfig):
 
         # Apply the mean shift if it is set to true
         if self.shift_params:
-            for param in self.samples:
+            for param in self.data_columns:
                 self.samples[param] -= np.average(self.samples[param], weights=self.weights)  # type: ignore
 
         # Check the walkers
-- 
2.43.0


From 1d6d412e405228990594e5189c78f30892e67337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 02/54] fix: find the maximum posterior row by position, so any
 dataframe index works

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index cbde1c4..ce24fca 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -197,7 +197,7 @@ class Chain(ChainConfig):
             logging.warning("No posterior column found, cannot find max posterior")
             return None
         argmax = self.samples[self.posterior_column].argmax()
-        return self.samples.loc[argmax]  # type: ignore
+        return self.samples.iloc[argmax]  # type: ignore
 
     @property
     def weights(self) -> np.ndarray:
-- 
2.43.0


From 487de7af4b81a7e957b7e32d4904d54e7c83c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 03/54] fix: covariance and correlation of a single column are
 1x1 matrices

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index ce24fca..f6386a8 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -379,7 +379,7 @@ class Chain(ChainConfig):
         """
         if columns is None:
             columns = self.data_columns
-        cov = np.cov(self.samples[columns], rowvar=False, aweights=self.weights)
+        cov = np.atleast_2d(np.cov(self.samples[columns], rowvar=False, aweights=self.weights))
         return Named2DMatrix(columns=columns, matrix=cov)
 
     def get_correlation(self, columns: list[str] | None = None) -> Named2DMatrix:
-- 
2.43.0


From 6086c3e1c6962751d855bc23a265e1f7c818441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 04/54] fix: allow percent signs in LaTeX table captions and
 labels

---
 src/chainconsumer/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 24d5d3e..434aecd 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -131,6 +131,8 @@ def get_grid_bins(data: pd.Series[float]) -> np.ndarray:
 
 
 def get_latex_table_frame(caption: str, label: str) -> str:  # pragma: no cover
+    # The frame is itself a %-format string, so a literal % in the text has to be escaped
+    caption, label = caption.replace("%", "%%"), label.replace("%", "%%")
     base_string = rf"""\begin{{table}}
     \centering
     \caption{{{caption}}}
-- 
2.43.0


From 88849c869d298d3bb141e841fd12850f71536809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 05/54] fix: size the marginal KDE grid by the number of bins,
 not by the largest data value

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 464e067..8b63a43 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -347,7 +347,7 @@ class Analysis:
             use_kde = bool(chain.kde)
 
         if use_kde:
-            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, int(bins.max())))
+            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, bins.size))
             factor = chain.kde if isinstance(chain.kde, int | float) else 1.0
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
             area = simps(ys, x=kde_xs)
-- 
2.43.0


From 75ac21e61fbf10e484319e670d879b2bb68c54ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 06/54] fix: apply the chain's power to KDE marginals too

---
 src/chainconsumer/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 8b63a43..6a9cc70 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -352,6 +352,8 @@ class Analysis:
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
             area = simps(ys, x=kde_xs)
             ys = ys / area
+            if chain.power is not None:
+                ys = ys**chain.power
             ys = interp1d(kde_xs, ys, kind="linear")(xs)
         else:
             ys = interp1d(edge_centers, hist, kind="linear")(xs)
-- 
2.43.0


From 88879b77a5905db989dc52c9bb8f0388e5ad01f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 07/54] fix: pass the chain's kde setting as the bandwidth
 factor, not the kernel truncation

---
 src/chainconsumer/helpers.py           | 2 +-
 src/chainconsumer/plotting/contours.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 434aecd..a0e840f 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -114,7 +114,7 @@ def get_smoothed_histogram2d(
         xx, yy = np.meshgrid(x_centers, y_centers, indexing="ij")
         coords = np.vstack((xx.flatten(), yy.flatten())).T
         data = np.vstack((x, y)).T
-        hist = MegKDE(data, w, chain.kde).evaluate(coords).reshape((nn, nn))
+        hist = MegKDE(data, w, factor=chain.kde).evaluate(coords).reshape((nn, nn))
         if chain.power is not None:
             hist = hist**chain.power
     elif chain.smooth_value:
diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 1dabfc4..b7e2940 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -93,7 +93,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             from ..kde import MegKDE
 
             bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
-            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, chain.kde)
+            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, factor=chain.kde)
             xs = np.linspace(bins.min(), bins.max(), 1000)
             ys = kde.evaluate(xs.reshape(-1, 1)).flatten()
             if chain.power is not None:
-- 
2.43.0


From 65f825aca58c637a00963a00d29842f97be05bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 08/54] fix: find HDI bands with a tolerance relative to the
 density, for any parameter scale and area

---
 src/chainconsumer/analysis.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 6a9cc70..22f8687 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -596,15 +596,16 @@ class Analysis:
         area = simps(ys, x=xs)
         density = ys / area
 
-        sol = root_scalar(
-            mass_diff,
-            bracket=(0.0, float(np.max(density))),
-            args=(density, xs, chain.summary_area),
-            method="bisect",
-            xtol=5e-4,
-        )
-
-        threshold = sol.root
+        peak = float(np.max(density))
+        args = (density, xs, chain.summary_area)
+        if mass_diff(0.0, *args) <= 0:
+            threshold = 0.0  # everything is needed to reach the requested mass
+        elif mass_diff(peak, *args) >= 0:
+            threshold = peak
+        else:
+            # The tolerance is relative to the density, which scales inversely with the parameter
+            sol = root_scalar(mass_diff, bracket=(0.0, peak), args=args, method="bisect", xtol=5e-4 * peak)
+            threshold = sol.root
         mask = density >= threshold
 
         intervals = _mask_to_intervals(xs, mask)
-- 
2.43.0


From 70e2e38464637e61b6613bf3592300308bdcd1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 09/54] fix: automatic shade alpha is finite when no chain
 plots contours

---
 src/chainconsumer/chainconsumer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index a6037e9..a9dffda 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -159,7 +159,7 @@ class ChainConsumer:
         global_config["bar_shade"] = num_chains < 5
         global_config["sigmas"] = [0, 1, 2]
         global_config["shade"] = num_chains < 5
-        global_config["shade_alpha"] = 1.0 / np.sqrt(num_chains)
+        global_config["shade_alpha"] = 1.0 / np.sqrt(max(1, num_chains))
 
         color_iter = colors.next_colour()
 
-- 
2.43.0


From 6ce67264f614889e35d012ed4a089422f05f97e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 10/54] fix: CDF based summaries accept a summary area up to
 one

---
 src/chainconsumer/analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 22f8687..d0650c2 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -498,14 +498,14 @@ class Analysis:
     def get_parameter_summary_mean(self, chain: Chain, column: ColumnName) -> Bound | None:
         xs, _, cs = self._get_smoothed_histogram(chain, column)
         vals = [0.5 - chain.summary_area / 2, 0.5, 0.5 + chain.summary_area / 2]
-        bounds = interp1d(cs, xs)(vals)
+        bounds = interp1d(cs, xs, bounds_error=False, fill_value=(xs[0], xs[-1]))(vals)
         bounds[1] = 0.5 * (bounds[0] + bounds[2])
         return Bound(lower=bounds[0], center=bounds[1], upper=bounds[2])
 
     def get_parameter_summary_cumulative(self, chain: Chain, column: ColumnName) -> Bound | None:
         xs, _, cs = self._get_smoothed_histogram(chain, column)
         vals = [0.5 - chain.summary_area / 2, 0.5, 0.5 + chain.summary_area / 2]
-        bounds = interp1d(cs, xs)(vals)
+        bounds = interp1d(cs, xs, bounds_error=False, fill_value=(xs[0], xs[-1]))(vals)
         return Bound(lower=bounds[0], center=bounds[1], upper=bounds[2])
 
     def get_parameter_summary_hdi(self, chain: Chain, column: ColumnName) -> Bound:
@@ -691,7 +691,7 @@ class Analysis:
     def get_parameter_summary_max_central(self, chain, parameter):
         xs, ys, cs = self._get_smoothed_histogram(chain, parameter)
 
-        c_to_x = interp1d(cs, xs)
+        c_to_x = interp1d(cs, xs, bounds_error=False, fill_value=(xs[0], xs[-1]))
         max_index = ys.argmax()
         x = xs[max_index]
 
-- 
2.43.0


From 82faf4daf8a4db61fe4d142dadd08e2cac3496c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 11/54] fix: the "e" colour alias maps to an existing colour

---
 src/chainconsumer/color_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 55d6ec5..f347568 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -48,7 +48,7 @@ class Colors:
             "y": "yellow",
             "a": "amber",
             "p": "purple",
-            "e": "grey",
+            "e": "gray",
             "lg": "lime",
             "lb": "sky",
             "black": "gray",
-- 
2.43.0


From 09dae3f191d452fd758d96f5052220a387075637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 12/54] fix: scale short and alpha hex colours instead of
 returning them without the leading hash

---
 src/chainconsumer/color_finder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index f347568..aa98b8a 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -2,7 +2,7 @@ from collections.abc import Generator, Iterable
 
 import matplotlib.pyplot as plt
 import numpy as np
-from matplotlib.colors import rgb2hex
+from matplotlib.colors import rgb2hex, to_hex
 
 # Colours drawn from tailwind: https://tailwindcss.com/docs/customizing-colors
 
@@ -108,9 +108,9 @@ class Colors:
         return scaled
 
     def scale_colour(self, color: ColorInput, scalefactor: float) -> str:  # pragma: no cover
-        hexx = self.format(color).strip("#")
-        if scalefactor < 0 or len(hexx) != 6:
-            return hexx
+        hexx = to_hex(self.format(color)).strip("#")
+        if scalefactor < 0:
+            return f"#{hexx}"
         r, g, b = int(hexx[:2], 16), int(hexx[2:4], 16), int(hexx[4:], 16)
         r = self._clamp(int(r * scalefactor))
         g = self._clamp(int(g * scalefactor))
-- 
2.43.0


From fbdfe796f5426391c44b2c4ee427edaacabb403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 13/54] fix: accept a pandas Series as a truth location, as
 documented

---
 src/chainconsumer/truth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/truth.py b/src/chainconsumer/truth.py
index db84b6a..7d5d8cb 100644
--- a/src/chainconsumer/truth.py
+++ b/src/chainconsumer/truth.py
@@ -2,7 +2,7 @@ from typing import Any
 
 import pandas as pd
 from matplotlib.lines import Line2D
-from pydantic import Field, ValidationError, field_validator, model_validator
+from pydantic import Field, field_validator, model_validator
 
 from .base import BetterBase
 from .color_finder import ColorInput
@@ -30,14 +30,14 @@ class Truth(BetterBase):
         default=_DEFAULT_EDGE_WIDTH, description="The truth marker edge width for the contour plots"
     )
 
-    @field_validator("location")
+    @field_validator("location", mode="before")
     @classmethod
     def _ensure_dict(cls, v):
         if isinstance(v, dict):
             return v
         elif isinstance(v, pd.Series):
             return v.to_dict()
-        raise ValidationError("Truth must be a dict or a pandas Series")
+        raise ValueError("Truth must be a dict or a pandas Series")
 
     @model_validator(mode="after")
     def validate_model(self):
-- 
2.43.0


From 490493bbad296fe39ae3f61bb4b8712f9f91b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 14/54] fix: make_sample draws its samples from the seeded
 generator

---
 src/chainconsumer/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/examples.py b/src/chainconsumer/examples.py
index b299e7d..d10a9ae 100644
--- a/src/chainconsumer/examples.py
+++ b/src/chainconsumer/examples.py
@@ -19,7 +19,7 @@ def make_sample(
     if randomise_mean:
         means += gen.uniform(-1, 1, num_dimensions)
     norm = mv(mean=means, cov=cor)
-    samples = norm.rvs(size=num_points)
+    samples = norm.rvs(size=num_points, random_state=gen)
     # Use the letters of the alphabet as the column names
     columns = [chr(65 + i) for i in range(num_dimensions)]
     return pd.DataFrame(samples, columns=columns).assign(log_posterior=norm.logpdf(samples))
-- 
2.43.0


From 8b515b5f8fb5b075c93b3e1f1c77c1c1b439243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 15/54] fix: summaries, tables and summary plots cope with
 markers and other single valued parameters

---
 src/chainconsumer/analysis.py | 4 ++++
 src/chainconsumer/plotter.py  | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index d0650c2..547339c 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -260,6 +260,10 @@ class Analysis:
         return results
 
     def get_parameter_summary(self, chain: Chain, column: ColumnName) -> Bound | None:
+        data = chain.get_data(column)
+        if data.min() == data.max():
+            # A single value, like a marker, has no distribution and thus no interval
+            return Bound(center=float(data.iloc[0]))
         callback = self._summaries[chain.statistics]
         return callback(chain, column)
 
diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index f471865..e14afbe 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -666,14 +666,14 @@ class Plotter:
                     if fv.lower is not None and fv.upper is not None:
                         diff = np.abs(np.diff(fv.array))
                         ax.errorbar([fv.center], 0, xerr=[[diff[0]], [diff[1]]], fmt="o", color=colour)
-                else:
+                elif chain.get_data(p).nunique() > 1:
                     m = self._plot_bars(ax, p, chain)
                     if max_vals.get(p) is None or m > max_vals[p]:
                         max_vals[p] = m
 
         for axes_row in axes:
             for ax, p in zip(axes_row, base.columns, strict=False):
-                if not errorbar:
+                if not errorbar and p in max_vals:
                     ax.set_ylim(0, 1.1 * max_vals[p])
 
         add_watermark(fig, None, fig_size, self.config, size_scale=0.8)
-- 
2.43.0


From e6ba21616f2878a5a8f38b40f1400f725c42654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 16/54] fix: plot_summary applies each parameter's height limit
 to its own column of axes

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index e14afbe..2544c51 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -672,7 +672,7 @@ class Plotter:
                         max_vals[p] = m
 
         for axes_row in axes:
-            for ax, p in zip(axes_row, base.columns, strict=False):
+            for ax, p in zip(axes_row[1:], base.columns, strict=False):
                 if not errorbar and p in max_vals:
                     ax.set_ylim(0, 1.1 * max_vals[p])
 
-- 
2.43.0


From 8c3999d02caa090e64155a48224f06986be2bcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 17/54] fix: plot_distributions marks truths on the parameter
 axis

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 2544c51..d841a2c 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -521,7 +521,7 @@ class Plotter:
                     m = self._plot_bars(ax, p, chain, summary=param_summary)
                     if max_val is None or m > max_val:
                         max_val = m
-            plot_truths(ax, self.parent._truths, py=p)
+            plot_truths(ax, self.parent._truths, px=p)
             ax.set_ylim(0, 1.1 * max_val)
             ax.set_xlabel(p, fontsize=self.config.label_font_size)
 
-- 
2.43.0


From 13dcd02e4182787b96567b50ceec792424ce0d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 18/54] fix: plot_distributions uses the configured labels

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index d841a2c..0c940b4 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -523,7 +523,7 @@ class Plotter:
                         max_val = m
             plot_truths(ax, self.parent._truths, px=p)
             ax.set_ylim(0, 1.1 * max_val)
-            ax.set_xlabel(p, fontsize=self.config.label_font_size)
+            ax.set_xlabel(self.config.get_label(p), fontsize=self.config.label_font_size)
 
         add_watermark(fig, None, figsize, self.config, size_scale=0.8)
         self._save_fig(fig, filename, dpi=self.config.dpi)
-- 
2.43.0


From 989024a0afef1cfb27e6812e9cf0ff5aeb4f23ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 19/54] fix: plot_summary keeps log scaled axes tickless where
 they should be, including when blinded

---
 src/chainconsumer/plotter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 0c940b4..1cf3a0e 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -637,12 +637,13 @@ class Plotter:
                     ax.spines["top"].set_visible(False)
                 if i < (num_chains - 1):
                     ax.spines["bottom"].set_visible(False)
+                # Changing the scale resets ticks, so it has to come first
+                if p in base.log_scales:
+                    ax.set_xscale("log")
                 if i < (num_chains - 1) or p in base.blind:
                     ax.set_xticks([])
                 ax.set_yticks([])
                 ax.set_xlim(base.extents[p])
-                if p in base.log_scales:
-                    ax.set_xscale("log")
 
                 # Put title in
                 if i == 0:
-- 
2.43.0


From 583176dee877329d1b692557af26b0167d3870fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 20/54] fix: removed ticks include the labelled minor ticks of
 log axes, so blinded values do not leak

---
 src/chainconsumer/plotter.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 1cf3a0e..fc65d80 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -10,6 +10,7 @@ import numpy as np
 import pandas as pd
 from matplotlib.artist import Artist
 from matplotlib.axes import Axes
+from matplotlib.axis import Axis
 from matplotlib.collections import PathCollection
 from matplotlib.figure import Figure
 from matplotlib.lines import Line2D
@@ -66,6 +67,12 @@ class FigSize(Enum):
         return 3 + grow_factor * 2 * num_columns + (1 if has_cax else 0), 3 + grow_factor * 2 * num_columns
 
 
+def _remove_ticks(axis: Axis) -> None:
+    """Remove all ticks and their labels, including the minor ones of logarithmic axes."""
+    axis.set_ticks([])
+    axis.set_ticks([], minor=True)
+
+
 def get_artists_from_chains(chains: list[Chain]) -> list[Artist]:
     artists: list[Artist] = []
     for chain in chains:
@@ -390,7 +397,7 @@ class Plotter:
                         self._plot_walk_truth(ax, truth, p)
 
                 if p in base.blind:
-                    ax.set_yticks([])
+                    _remove_ticks(ax.yaxis)
             else:  # noqa: PLR5501
                 if i == 0 and plot_posterior:
                     for chain in base.chains:
@@ -495,11 +502,11 @@ class Plotter:
                 continue
             p = base.columns[i]
 
-            ax.set_yticks([])
+            _remove_ticks(ax.yaxis)
             if p in base.log_scales:
                 ax.set_xscale("log")
             if p in base.blind:
-                ax.set_xticks([])
+                _remove_ticks(ax.xaxis)
             else:
                 if self.config.diagonal_tick_labels:
                     _ = [label.set_rotation(45) for label in ax.get_xticklabels()]
@@ -641,8 +648,8 @@ class Plotter:
                 if p in base.log_scales:
                     ax.set_xscale("log")
                 if i < (num_chains - 1) or p in base.blind:
-                    ax.set_xticks([])
-                ax.set_yticks([])
+                    _remove_ticks(ax.xaxis)
+                _remove_ticks(ax.yaxis)
                 ax.set_xlim(base.extents[p])
 
                 # Put title in
@@ -810,8 +817,8 @@ class Plotter:
                 display_y_ticks = False
                 if i < j:
                     ax.set_frame_on(False)
-                    ax.set_xticks([])
-                    ax.set_yticks([])
+                    _remove_ticks(ax.xaxis)
+                    _remove_ticks(ax.yaxis)
                 else:
                     logx = False
                     logy = False
@@ -831,19 +838,19 @@ class Plotter:
                             ax.set_xscale("log")
                             logx = True
                     if i != n - 1 or (self.config.flip and j == n - 1):
-                        ax.set_xticks([])
+                        _remove_ticks(ax.xaxis)
                     else:
                         if p2 in base.blind:
-                            ax.set_xticks([])
+                            _remove_ticks(ax.xaxis)
                         else:
                             display_x_ticks = True
                         if isinstance(p2, str):
                             ax.set_xlabel(self.config.get_label(p2), fontsize=self.config.label_font_size)
                     if j != 0 or (self.config.plot_hists and i == 0):
-                        ax.set_yticks([])
+                        _remove_ticks(ax.yaxis)
                     else:
                         if p1 in base.blind:
-                            ax.set_yticks([])
+                            _remove_ticks(ax.yaxis)
                         else:
                             display_y_ticks = True
                         if isinstance(p1, str):
@@ -858,7 +865,7 @@ class Plotter:
                         else:
                             ax.xaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
-                        ax.set_xticks([])
+                        _remove_ticks(ax.xaxis)
                     if display_y_ticks:
                         if self.config.diagonal_tick_labels:
                             _ = [label.set_rotation(45) for label in ax.get_yticklabels()]
@@ -869,7 +876,7 @@ class Plotter:
                         else:
                             ax.yaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
-                        ax.set_yticks([])
+                        _remove_ticks(ax.yaxis)
                     if (i != j or not self.config.plot_hists) or (self.config.flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
-- 
2.43.0


From 7a34889c2c5da56033f770dd360fa297b39ea4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 21/54] fix: flip only changes two parameter plots with
 histograms

---
 src/chainconsumer/plotter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index fc65d80..16e0b39 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -784,7 +784,9 @@ class Plotter:
             spacing = 1.0 if n < 6 else 0.0
 
         gridspec_kw = {}
-        if n == 2 and self.config.plot_hists and self.config.flip:
+        # Flipping is only possible when there are two parameters and their histograms are shown
+        flip = n == 2 and self.config.plot_hists and self.config.flip
+        if flip:
             gridspec_kw = {"width_ratios": [3, 1], "height_ratios": [1, 3]}
 
         fig, axes = plt.subplots(n, n, figsize=figsize, squeeze=False, gridspec_kw=gridspec_kw)
@@ -824,7 +826,7 @@ class Plotter:
                     logy = False
                     if p1 == p2:
                         if p1 in base.log_scales:
-                            if self.config.flip and j == n - 1:
+                            if flip and j == n - 1:
                                 ax.set_yscale("log")
                                 logy = True
                             else:
@@ -837,7 +839,7 @@ class Plotter:
                         if p2 in base.log_scales:
                             ax.set_xscale("log")
                             logx = True
-                    if i != n - 1 or (self.config.flip and j == n - 1):
+                    if i != n - 1 or (flip and j == n - 1):
                         _remove_ticks(ax.xaxis)
                     else:
                         if p2 in base.blind:
@@ -877,7 +879,7 @@ class Plotter:
                             ax.yaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         _remove_ticks(ax.yaxis)
-                    if (i != j or not self.config.plot_hists) or (self.config.flip and i == 1):
+                    if (i != j or not self.config.plot_hists) or (flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
 
-- 
2.43.0


From 76083154b8f1cf506a11940ab0368d09cdff9508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 22/54] fix: multimodal marginals are titled by their summary
 when single banded, and shading stays on the curve

---
 src/chainconsumer/plotter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 16e0b39..165ca07 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -982,12 +982,14 @@ class Plotter:
 
                     # If we get a single interval, fallback to unimodal HDI
                     if len(intervals) < 2:
+                        display_bounds = base_bound
                         intervals = [(base_bound.lower, base_bound.upper)]
 
                 else:
                     display_bounds = base_bound
                     intervals = [(display_bounds.lower, display_bounds.upper)]
-                    intervals = [(max(lower, xs.min()), min(upper, xs.max())) for lower, upper in intervals]
+
+                intervals = [(max(lower, xs.min()), min(upper, xs.max())) for lower, upper in intervals]
 
                 for lower, upper_ in intervals:
                     x = np.linspace(lower, upper_, 1000)
-- 
2.43.0


From 1a99ef89efeda165a1f5d6039a5cd17f3f3ede29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 23/54] fix: comparison table declares as many columns as it
 has

---
 src/chainconsumer/comparisons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/comparisons.py b/src/chainconsumer/comparisons.py
index 70a9ae5..e63cc42 100644
--- a/src/chainconsumer/comparisons.py
+++ b/src/chainconsumer/comparisons.py
@@ -179,8 +179,8 @@ class Comparison:
 
         base_string = get_latex_table_frame(caption, label)
         end_text = " \\\\ \n"
-        num_cols = 1 + (1 if aic else 0) + (1 if bic else 0)
-        column_text = "c" * (num_cols + 1)
+        num_cols = 1 + (1 if aic else 0) + (1 if bic else 0) + (1 if dic else 0)
+        column_text = "c" * num_cols
         center_text = ""
         hline_text = "\\hline\n"
         if hlines:
-- 
2.43.0


From da8e08f9c4bd8650df7506007a3986bbd77576f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 24/54] fix: an empty var_names list keeps all parameters, as
 documented

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index f6386a8..3dcb5fd 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -500,7 +500,7 @@ def _filter_var_names(var_names: list[str] | None, all_vars: list[str]) -> list[
     Helper function to return the var_names to allows filtering parameters names.
     """
 
-    if var_names is None:
+    if not var_names:
         return all_vars
 
     negations = set([var.startswith("~") for var in var_names])
-- 
2.43.0


From 14127f6cc144b3eed4fd38d8d2a1fab5036efb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 25/54] fix: plot_dist normalises KDE curves like every other
 marginal

---
 src/chainconsumer/plotting/contours.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index b7e2940..08f14ff 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -1,6 +1,7 @@
 import numpy as np
 from matplotlib.axes import Axes
 from matplotlib.collections import PathCollection
+from scipy.integrate import simpson as simps
 from scipy.interpolate import interp1d
 from scipy.ndimage import gaussian_filter
 from scipy.stats import norm
@@ -96,6 +97,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             kde = MegKDE(data.values.reshape(-1, 1), chain.weights, factor=chain.kde)
             xs = np.linspace(bins.min(), bins.max(), 1000)
             ys = kde.evaluate(xs.reshape(-1, 1)).flatten()
+            ys = ys / simps(ys, x=xs)
             if chain.power is not None:
                 ys = ys**chain.power
         else:
-- 
2.43.0


From abafbad99b703d781848376328e14dfd4adb4464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 26/54] fix: a bound of exactly zero without errors can be
 formatted

---
 src/chainconsumer/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 547339c..df1716b 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -456,8 +456,10 @@ class Analysis:
             resolution = np.floor(np.log10(np.abs(lower_error)))
         elif upper_error != 0 and lower_error == 0:
             resolution = np.floor(np.log10(np.abs(upper_error)))
-        else:
+        elif bound.center != 0:
             resolution = np.floor(np.log10(np.abs(bound.center)))
+        else:
+            resolution = 0
         factor = 0
         fmt = "%0.1f"
         r = 1
-- 
2.43.0


From 2410d184c3544add9761f46ed9e358ff89e79702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 27/54] fix: plot_walks shows all steps of every chain, not
 just of the last one

---
 src/chainconsumer/plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 165ca07..ddfb303 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1043,7 +1043,8 @@ class Plotter:
             ax.set_ylim(extents)
         assert convolve is None or isinstance(convolve, int), "Convolve must be an integer pixel window width"
         x = np.arange(data.size)
-        ax.set_xlim(0, x[-1])
+        # Chains can have different lengths, and the longest one has to fit
+        ax.set_xlim(0, max(x[-1], ax.get_xlim()[1]))
         ax.set_ylabel(self.config.get_label(column))
         if color is None:
             color = "#0345A1"
-- 
2.43.0


From 83c19f60a5465261016960d28f7bba92a0b2fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 28/54] fix: get_summary accepts chain names and dicts of
 chains, as documented

---
 src/chainconsumer/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index df1716b..a54a418 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -200,8 +200,8 @@ class Analysis:
             dict[ChainName, dict[ColumnName, Bound | list[Bound]]]: A map from chain name to column name to bound.
         """
         results = {}
-        if chains is None:
-            chains = self.parent.plotter._sanitise_chains(None, include_skip=True)
+        if chains is None or isinstance(chains, dict) or any(isinstance(c, ChainName) for c in chains):
+            chains = self.parent.plotter._sanitise_chains(chains, include_skip=True)
         if columns is None:
             columns = self.parent.plotter._sanitise_columns(None, chains)
 
-- 
2.43.0


From c28c97204f2a7d72cfc1f4c0cf93edb99707d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 29/54] fix: plot_distributions copes with parameters no
 contour chain has

---
 src/chainconsumer/plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index ddfb303..938cd10 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -529,7 +529,8 @@ class Plotter:
                     if max_val is None or m > max_val:
                         max_val = m
             plot_truths(ax, self.parent._truths, px=p)
-            ax.set_ylim(0, 1.1 * max_val)
+            if np.isfinite(max_val):
+                ax.set_ylim(0, 1.1 * max_val)
             ax.set_xlabel(self.config.get_label(p), fontsize=self.config.label_font_size)
 
         add_watermark(fig, None, figsize, self.config, size_scale=0.8)
-- 
2.43.0


From 0b537699d773677440e0b074d65c947763faf93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 30/54] fix: divide splits rows by position, whatever their
 labels

---
 src/chainconsumer/chain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 3dcb5fd..ed5dc5e 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -343,7 +343,9 @@ class Chain(ChainConfig):
         assert self.walkers > 1, "Cannot divide a chain with only one walker"
         assert not self.grid, "Cannot divide a grid chain"
 
-        splits = np.split(self.samples, self.walkers)
+        # Split by position, as slicing a dataframe directly may go by its labels
+        size = len(self.samples) // self.walkers
+        splits = [self.samples.iloc[i * size : (i + 1) * size] for i in range(self.walkers)]
         chains = []
         for i, split in enumerate(splits):
             df = pd.DataFrame(split, columns=self.samples.columns)
-- 
2.43.0


From 64c912998213a1132a38f767dcd89f81c1e4d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 31/54] fix: gelman_rubin splits walkers by position, whatever
 the row labels

---
 src/chainconsumer/diagnostic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/diagnostic.py b/src/chainconsumer/diagnostic.py
index 9b1b9b1..75f80d5 100644
--- a/src/chainconsumer/diagnostic.py
+++ b/src/chainconsumer/diagnostic.py
@@ -73,7 +73,7 @@ class Diagnostic:
         parameters = chain.data_columns
         name = chain.name
         data = chain.data_samples
-        split_samples = np.split(data, num_walkers)
+        split_samples = np.split(data.to_numpy(), num_walkers)
         assert num_walkers > 1, "Cannot run Gelman-Rubin statistic with only one walker"
         m = 1.0 * len(split_samples)
         n = 1.0 * split_samples[0].shape[0]
-- 
2.43.0


From 08b70e08651aba11f4136fc74b664b7d4800d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 32/54] fix: parameter titles do not need bar shading

---
 src/chainconsumer/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 938cd10..3d9f41d 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -969,7 +969,7 @@ class Plotter:
         interp_type = "linear" if chain.smooth_value else "nearest"
         interpolator = interp1d(xs, ys, kind=interp_type)
 
-        if chain.bar_shade:
+        if chain.bar_shade or summary:
             base_bound = self.parent.analysis.get_parameter_summary(chain, column)
 
             if base_bound is not None and base_bound.lower is not None and base_bound.upper is not None:
@@ -992,7 +992,7 @@ class Plotter:
 
                 intervals = [(max(lower, xs.min()), min(upper, xs.max())) for lower, upper in intervals]
 
-                for lower, upper_ in intervals:
+                for lower, upper_ in intervals if chain.bar_shade else []:
                     x = np.linspace(lower, upper_, 1000)
 
                     if flip:
-- 
2.43.0


From 09009fc6718a0cd1bf779780d2772fcda37e22f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 33/54] fix: blinded parameters keep their values off the
 colour bar

---
 src/chainconsumer/plotter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 3d9f41d..8a0eecd 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -251,6 +251,9 @@ class Plotter:
                 cbar.set_label(label, fontsize=self.config.label_font_size)
                 if cbar.solids is not None:
                     cbar.solids.set(alpha=1)
+                if self.config.blind is True or column in base.blind:
+                    cbar.set_ticks([])
+                    cbar.minorticks_off()
 
         legend_location = self.config.legend_location
         if legend_location is None:
-- 
2.43.0


From 1cf8b292771b2dfe5f0e001e061985063031f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 34/54] fix: a colour given as None is assigned automatically

---
 src/chainconsumer/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index ed5dc5e..da41223 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -89,7 +89,8 @@ class ChainConfig(BetterBase):
 
     def _apply_if_not_user_set(self, **kwargs: Any) -> None:
         for key, value in kwargs.items():
-            if key not in self._user_specified:
+            # None asks for the automatic value, just like not giving one
+            if key not in self._user_specified or getattr(self, key) is None:
                 setattr(self, key, value)
 
     def _apply(self, **kwargs: Any) -> None:
-- 
2.43.0


From 112f9c89862ce3471fb7fc29a9501744cd86403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 35/54] fix: automatic shading accounts for contours and labels
 set by the override

---
 src/chainconsumer/chainconsumer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index a9dffda..af32d60 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -151,7 +151,11 @@ class ChainConsumer:
     def _get_final_chains(self) -> dict[ChainName, Chain]:
         # Copy the original chain list
         final_chains = {k: v.model_copy() for k, v in self._chains.items()}
-        num_chains = len([x for x in self._chains.values() if x.plot_contour])
+        # What the chains show depends on the user overrides too
+        override: dict[str, Any] = {}
+        if self._global_chain_override is not None:
+            override = self._global_chain_override.get_user_specified_dump()
+        num_chains = len([x for x in self._chains.values() if override.get("plot_contour", x.plot_contour)])
 
         # Note we only have to override things without a default
         # and things which should change as the number of chains change
@@ -168,7 +172,7 @@ class ChainConsumer:
             local_config = global_config.copy()
 
             # Reduce shade alpha if we're showing contour labels
-            if chain.show_contour_labels:
+            if override.get("show_contour_labels", chain.show_contour_labels):
                 local_config["shade_alpha"] *= 0.5
 
             # Check to see if the color is set
@@ -178,8 +182,7 @@ class ChainConsumer:
             chain._apply_if_not_user_set(**local_config)
 
             # Apply user overrides
-            if self._global_chain_override is not None:
-                chain._apply(**self._global_chain_override.get_user_specified_dump())
+            chain._apply(**override)
 
         return final_chains
 
-- 
2.43.0


From 397c4980e2f7ed80e3c9c0bc386b5408b3848e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 36/54] fix: legend copes with point-only chains that have
 dashed lines

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 8a0eecd..bcd6d9c 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -95,7 +95,7 @@ def get_artists_from_chains(chains: list[Chain]) -> list[Artist]:
                     (0, 1),
                     (0, 0),
                     color=colors.format(chain.color),
-                    ls=chain.linestyle,
+                    ls="none",
                     lw=0,
                     marker=chain.marker_style,
                     markersize=np.sqrt(chain.marker_size),
-- 
2.43.0


From b2e826d02a7ba88d90f286a07c6aefe83c1a0e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 37/54] fix: mean shift is applied once and never to the user's
 own dataframe

---
 src/chainconsumer/chain.py         | 16 +++++++++++++---
 src/chainconsumer/chainconsumer.py |  1 +
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index da41223..465aa97 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -151,6 +151,8 @@ class Chain(ChainConfig):
         ge=0.0,
     )
 
+    _shifted: bool = False
+
     @property
     def data_columns(self) -> list[str]:
         """The columns in the dataframe which are not weights or posteriors."""
@@ -260,9 +262,7 @@ class Chain(ChainConfig):
             assert np.all(np.isfinite(self.samples[column])), f"Column {column} has NaN or inf in it"
 
         # Apply the mean shift if it is set to true
-        if self.shift_params:
-            for param in self.data_columns:
-                self.samples[param] -= np.average(self.samples[param], weights=self.weights)  # type: ignore
+        self._shift_samples()
 
         # Check the walkers
         assert self.samples.shape[0] % self.walkers == 0, (
@@ -297,6 +297,16 @@ class Chain(ChainConfig):
 
         return self
 
+    def _shift_samples(self) -> None:
+        # Validation runs again for every plot, on chains which share their dataframe with
+        # the one the user made, so shift only once, and never in place
+        if self.shift_params and not self._shifted:
+            samples = self.samples.copy()
+            for param in self.data_columns:
+                samples[param] -= np.average(samples[param], weights=self.weights)  # type: ignore
+            self.samples = samples
+            self._shifted = True
+
     def get_data(self, column: str) -> pd.Series[float]:
         """Extracts a single columns from the samples dataframe."""
         return self.samples[column]
diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index af32d60..e0242c9 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -183,6 +183,7 @@ class ChainConsumer:
 
             # Apply user overrides
             chain._apply(**override)
+            chain._shift_samples()
 
         return final_chains
 
-- 
2.43.0


From 40c7c9fe3bbdce8254b3554ef29507ee3db43e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 38/54] fix: dividing a mean-shifted chain keeps its samples

---
 src/chainconsumer/chain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 465aa97..0078ff1 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -360,10 +360,12 @@ class Chain(ChainConfig):
         chains = []
         for i, split in enumerate(splits):
             df = pd.DataFrame(split, columns=self.samples.columns)
-            options = self.model_dump(exclude={"samples", "name", "walkers"})
+            options = self.model_dump(exclude={"samples", "name", "walkers", "shift_params"})
             if "color" in options:
                 options.pop("color")
             chain = Chain(samples=df, name=f"{self.name} Walker {i}", **options)
+            # The samples are already shifted by the mean of the whole chain
+            chain.shift_params, chain._shifted = self.shift_params, self._shifted
             chains.append(chain)
 
         return chains
-- 
2.43.0


From 250f31a4211a4d8320c4f497cf0c7649e1c7aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 39/54] fix: HDI intervals are found for parameters of any
 scale

---
 src/chainconsumer/analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index a54a418..adb54c7 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -562,10 +562,11 @@ class Analysis:
             lower = float(x_points[start_idx])
             upper = float(x_points[end_idx])
             width = upper - lower
-            if width <= eps:
+            if width <= 0:
                 continue
 
-            if width < best_width - eps:
+            # The tolerance is relative to the width, as parameters can have any scale
+            if width < best_width * (1 - eps):
                 best_width = width
                 best_lower = lower
                 best_upper = upper
-- 
2.43.0


From 1bc2201409606618ec1fee5deb9f362886e71e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:24 +0000
Subject: [PATCH 40/54] fix: make_sample can draw a single point

---
 src/chainconsumer/examples.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/examples.py b/src/chainconsumer/examples.py
index d10a9ae..f571037 100644
--- a/src/chainconsumer/examples.py
+++ b/src/chainconsumer/examples.py
@@ -20,6 +20,8 @@ def make_sample(
         means += gen.uniform(-1, 1, num_dimensions)
     norm = mv(mean=means, cov=cor)
     samples = norm.rvs(size=num_points, random_state=gen)
+    # scipy drops axes of length one
+    samples = samples.reshape(num_points, num_dimensions)
     # Use the letters of the alphabet as the column names
     columns = [chr(65 + i) for i in range(num_dimensions)]
     return pd.DataFrame(samples, columns=columns).assign(log_posterior=norm.logpdf(samples))
-- 
2.43.0


From e68361fd3e7e7d74fbadd1e5471c5d70573e07d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 41/54] fix: plot_dist bins smoothed grids by their grid points

---
 src/chainconsumer/plotting/contours.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 08f14ff..b69c7d3 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -102,7 +102,10 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
                 ys = ys**chain.power
         else:
             # Smoothed histogram
-            bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
+            if chain.grid:
+                bins = get_grid_bins(data)
+            else:
+                bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
             hist, edges = np.histogram(data, bins=bins, density=True, weights=chain.weights)
             if chain.power is not None:
                 hist = hist**chain.power
-- 
2.43.0


From bc236bf2c9a633f2746ff7d95d21aa27b9972a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 42/54] fix: plot_dist draws an uncoloured chain in the
 palette's first colour

---
 src/chainconsumer/plotting/contours.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index b69c7d3..efe456c 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -84,6 +84,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
 
     # Get the data for the parameter
     data = chain.get_data(px)
+    color = colors.format(chain.color)
 
     # Create histogram based on chain settings (following _plot_bars logic from plotter.py)
     if chain.smooth_value or chain.kde:
@@ -114,7 +115,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             ys = hist
 
         ys *= chain.histogram_relative_height
-        ax.plot(xs, ys, color=chain.color, ls=chain.linestyle, lw=chain.linewidth, zorder=chain.zorder)
+        ax.plot(xs, ys, color=color, ls=chain.linestyle, lw=chain.linewidth, zorder=chain.zorder)
     else:
         # Regular histogram
         if chain.grid:
@@ -135,7 +136,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             weights=ys,
             bins=bins,
             histtype="step",
-            color=chain.color,
+            color=color,
             orientation="vertical",
             ls=chain.linestyle,
             lw=chain.linewidth,
@@ -169,7 +170,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
                     x,
                     np.zeros(x.shape),
                     interpolator(x),
-                    color=chain.color,
+                    color=color,
                     alpha=effective_alpha,
                     zorder=chain.zorder - 1,
                 )
-- 
2.43.0


From dc5370669ecc6ee6f47236bbeb486f199c48b7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 43/54] fix: plot_walks smooths only chains at least as long as
 the window, with windows of any width

---
 src/chainconsumer/plotter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index bcd6d9c..00b5a15 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1060,12 +1060,13 @@ class Plotter:
         else:
             ax.yaxis.set_major_locator(MaxNLocator(max_ticks, prune="lower"))
 
-        if convolve is not None:
+        if convolve is not None and data.size >= convolve:
             trim = int(0.5 * convolve)
             color2 = colors.scale_colour(color, 0.5)
             filt = np.ones(convolve) / convolve
             filtered = np.convolve(data, filt, mode="same")
-            ax.plot(x[trim:-trim], filtered[trim:-trim], color=color2, alpha=1)
+            end = data.size - trim
+            ax.plot(x[trim:end], filtered[trim:end], color=color2, alpha=1)
 
     def _plot_walk_truth(self, ax: Axes, truth: Truth, col: str) -> None:
         ax.axhline(truth.location[col], **truth._kwargs)
-- 
2.43.0


From 08020bfe2878e3130c373fcb136f05d108b56635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 44/54] fix: contours cope with a single sigma and with sigmas
 in any order

---
 src/chainconsumer/plotting/contours.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index efe456c..787b203 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -211,7 +211,7 @@ def plot_contour(ax: Axes, chain: Chain, px: ColumnName, py: ColumnName, config:
     hist[hist == 0] = 1e-16
     vals = _convert_to_stdev(hist)
 
-    if chain.shade and chain.shade_alpha > 0:
+    if chain.shade and chain.shade_alpha > 0 and len(levels) > 1:
         ax.contourf(
             x_centers,
             y_centers,
@@ -285,7 +285,8 @@ def _scale_colours(colour: ColorInput, num: int, shade_gradient: float) -> list[
 
 
 def _get_levels(sigmas: list[float], config: PlotConfig) -> np.ndarray:
-    """Turn sigmas into percentages."""
+    """Turn sigmas into percentages, in increasing order."""
+    sigmas = sorted(sigmas)
     sigma2d = config.sigma2d
     if sigma2d:
         levels: np.ndarray = 1.0 - np.exp(-0.5 * np.array(sigmas) ** 2)
-- 
2.43.0


From c9abfd0dba3c49fd5159e6eb25b4314ad334ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 45/54] fix: plot_summary copes with blank chain names and
 labels

---
 src/chainconsumer/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 00b5a15..75e050e 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -696,8 +696,8 @@ class Plotter:
     def _get_size_of_texts(self, texts: list[str]) -> float:  # pragma: no cover
         usetex = self.config.usetex
         size = self.config.label_font_size
-        widths = [TextPath((0, 0), text, usetex=usetex, size=size).get_extents().width for text in texts]  # type: ignore
-        return max(widths)
+        widths = [TextPath((0, 0), text, usetex=usetex, size=size).get_extents().width for text in texts if text.strip()]  # type: ignore
+        return max(widths, default=0.0)
 
     def _sanitise_columns(self, columns: list[ColumnName] | None, chains: list[Chain]) -> list[ColumnName]:
         if columns is None:
-- 
2.43.0


From 6d12eab05eef41f50a328d57da86db710827928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 46/54] fix: a blank watermark is no watermark

---
 src/chainconsumer/plotting/watermark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/watermark.py b/src/chainconsumer/plotting/watermark.py
index 69b0cb1..1a8d880 100644
--- a/src/chainconsumer/plotting/watermark.py
+++ b/src/chainconsumer/plotting/watermark.py
@@ -16,7 +16,7 @@ def add_watermark(
 ) -> None:  # pragma: no cover
     """Add a watermark to a figure or axis."""
     # Code based off github repository https://github.com/cpadavis/preliminize
-    if config.watermark is None:
+    if config.watermark is None or not config.watermark.strip():
         return
     dx, dy = fig_size
     dy, dx = dy * config.dpi, dx * config.dpi
-- 
2.43.0


From d62fa33073ab0a275a663503ee217e12e329a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 47/54] fix: max_ticks=0 shows no ticks instead of failing

---
 src/chainconsumer/plotter.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 75e050e..2755506 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -15,7 +15,7 @@ from matplotlib.collections import PathCollection
 from matplotlib.figure import Figure
 from matplotlib.lines import Line2D
 from matplotlib.textpath import TextPath
-from matplotlib.ticker import LogLocator, MaxNLocator, ScalarFormatter
+from matplotlib.ticker import Locator, LogLocator, MaxNLocator, NullLocator, ScalarFormatter
 from scipy.interpolate import interp1d  # type: ignore
 
 from chainconsumer.plotting.truth import plot_truths  # type: ignore
@@ -73,6 +73,12 @@ def _remove_ticks(axis: Axis) -> None:
     axis.set_ticks([], minor=True)
 
 
+def _get_major_locator(max_ticks: int, log: bool) -> Locator:
+    if max_ticks == 0:
+        return NullLocator()
+    return LogLocator(numticks=max_ticks) if log else MaxNLocator(max_ticks, prune="lower")
+
+
 def get_artists_from_chains(chains: list[Chain]) -> list[Artist]:
     artists: list[Artist] = []
     for chain in chains:
@@ -516,9 +522,9 @@ class Plotter:
                 _ = [label.set_fontsize(self.config.tick_font_size) for label in ax.get_xticklabels()]
 
                 if p in base.log_scales:
-                    ax.xaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
+                    ax.xaxis.set_major_locator(_get_major_locator(self.config.max_ticks, log=True))
                 else:
-                    ax.xaxis.set_major_locator(MaxNLocator(self.config.max_ticks, prune="lower"))
+                    ax.xaxis.set_major_locator(_get_major_locator(self.config.max_ticks, log=False))
                     ax.xaxis.set_major_formatter(formatter)
             ax.set_xlim(base.extents.get(p) or self._get_parameter_extents(p, base.chains))
 
@@ -866,10 +872,10 @@ class Plotter:
                             _ = [label.set_rotation(45) for label in ax.get_xticklabels()]
                         _ = [label.set_fontsize(self.config.tick_font_size) for label in ax.get_xticklabels()]
                         if not logx:
-                            ax.xaxis.set_major_locator(MaxNLocator(self.config.max_ticks, prune="lower"))
+                            ax.xaxis.set_major_locator(_get_major_locator(self.config.max_ticks, log=False))
                             ax.xaxis.set_major_formatter(formatter_x)
                         else:
-                            ax.xaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
+                            ax.xaxis.set_major_locator(_get_major_locator(self.config.max_ticks, log=True))
                     else:
                         _remove_ticks(ax.xaxis)
                     if display_y_ticks:
@@ -877,10 +883,10 @@ class Plotter:
                             _ = [label.set_rotation(45) for label in ax.get_yticklabels()]
                         _ = [label.set_fontsize(self.config.tick_font_size) for label in ax.get_yticklabels()]
                         if not logy:
-                            ax.yaxis.set_major_locator(MaxNLocator(self.config.max_ticks, prune="lower"))
+                            ax.yaxis.set_major_locator(_get_major_locator(self.config.max_ticks, log=False))
                             ax.yaxis.set_major_formatter(formatter_y)
                         else:
-                            ax.yaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
+                            ax.yaxis.set_major_locator(_get_major_locator(self.config.max_ticks, log=True))
                     else:
                         _remove_ticks(ax.yaxis)
                     if (i != j or not self.config.plot_hists) or (flip and i == 1):
@@ -1056,9 +1062,9 @@ class Plotter:
         max_ticks = self.config.max_ticks
         if log_scale:
             ax.set_yscale("log")
-            ax.yaxis.set_major_locator(LogLocator(numticks=max_ticks))
+            ax.yaxis.set_major_locator(_get_major_locator(max_ticks, log=True))
         else:
-            ax.yaxis.set_major_locator(MaxNLocator(max_ticks, prune="lower"))
+            ax.yaxis.set_major_locator(_get_major_locator(max_ticks, log=False))
 
         if convolve is not None and data.size >= convolve:
             trim = int(0.5 * convolve)
-- 
2.43.0


From 616bf4b08e8c2556b4b8f2a615f7d4ffa966ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 48/54] fix: clouds coloured by the same parameter share its
 colour scale

---
 src/chainconsumer/plotter.py           |  4 +++-
 src/chainconsumer/plotting/contours.py | 21 ++++++++++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 2755506..437f558 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -12,6 +12,7 @@ from matplotlib.artist import Artist
 from matplotlib.axes import Axes
 from matplotlib.axis import Axis
 from matplotlib.collections import PathCollection
+from matplotlib.colors import Normalize
 from matplotlib.figure import Figure
 from matplotlib.lines import Line2D
 from matplotlib.textpath import TextPath
@@ -199,6 +200,7 @@ class Plotter:
         summarise = self.config.summarise and num_summary_chains == 1
 
         paths_for_cbar: dict[ColumnName, PathCollection] = {}
+        color_norms: dict[ColumnName, Normalize] = {}
         for i, p1 in enumerate(params_x):
             for j, p2 in enumerate(params_y):
                 if i < j:
@@ -238,7 +240,7 @@ class Plotter:
                             ax.set_ylim(0, 1.1 * max_val)
 
                 else:
-                    paths_for_cbar |= plot_surface(ax, base.chains, p2, p1, self.config)
+                    paths_for_cbar |= plot_surface(ax, base.chains, p2, p1, self.config, color_norms)
                     plot_truths(ax, self.parent._truths, px=p2, py=p1)
 
         # Create all the colorbars we need
diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 787b203..9141334 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -1,6 +1,7 @@
 import numpy as np
 from matplotlib.axes import Axes
 from matplotlib.collections import PathCollection
+from matplotlib.colors import Normalize
 from scipy.integrate import simpson as simps
 from scipy.interpolate import interp1d
 from scipy.ndimage import gaussian_filter
@@ -18,21 +19,39 @@ def plot_surface(
     px: ColumnName,
     py: ColumnName,
     config: PlotConfig | None = None,
+    color_norms: dict[ColumnName, Normalize] | None = None,
 ) -> dict[ColumnName, PathCollection]:
     """Plot the chains onto a 2D surface, using clouds, contours and points.
 
+    Args:
+        ax: The axis to plot on
+        chains: The chains to plot
+        px: The parameter to plot on the x axis
+        py: The parameter to plot on the y axis
+        config: The plot configuration
+        color_norms: The colour scale of each colour parameter, widened to cover the clouds
+            plotted here. Pass the same dictionary for several surfaces to share the scales.
+
     Returns:
         A map from column name to paths to be added as colorbars.
     """
     if config is None:
         config = PlotConfig()
+    if color_norms is None:
+        color_norms = {}
     paths: dict[ColumnName, PathCollection] = {}
     for chain in chains:
         if px not in chain.plotting_columns or py not in chain.plotting_columns:
             continue
 
         if chain.plot_cloud:
-            paths |= plot_cloud(ax, chain, px, py)
+            for column, path in plot_cloud(ax, chain, px, py).items():
+                # There is one colorbar per parameter, so its clouds need to share its scale
+                norm = color_norms.setdefault(column, path.norm)
+                norm.vmin = min(norm.vmin, path.norm.vmin)  # type: ignore
+                norm.vmax = max(norm.vmax, path.norm.vmax)  # type: ignore
+                path.set_norm(norm)
+                paths[column] = path
 
         if chain.plot_contour:
             plot_contour(ax, chain, px, py, config)
-- 
2.43.0


From 8b20fb1a0289bf6c96fb98f9e2ffdff44a870806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:28 +0000
Subject: [PATCH 49/54] fix: malformed hex colours and the empty string are
 refused as unknown colours

---
 src/chainconsumer/color_finder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index aa98b8a..e9611bf 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -2,7 +2,7 @@ from collections.abc import Generator, Iterable
 
 import matplotlib.pyplot as plt
 import numpy as np
-from matplotlib.colors import rgb2hex, to_hex
+from matplotlib.colors import is_color_like, rgb2hex, to_hex
 
 # Colours drawn from tailwind: https://tailwindcss.com/docs/customizing-colors
 
@@ -80,7 +80,7 @@ class Colors:
             return next(iter(self.next_colour()))
         elif isinstance(color, np.ndarray | list):
             color = rgb2hex(color)  # type: ignore
-        if color[0] == "#":
+        if color.startswith("#") and is_color_like(color):
             return color
         elif color in ALL_COLOURS:
             return ALL_COLOURS[color][4]
-- 
2.43.0


From 7d1f99ce64623ee68ce2f94b02b1bc6abc1b5da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:10 +0000
Subject: [PATCH 50/54] fix: None in the override asks for the automatic colour
 and statistic, as it does on a chain

---
 src/chainconsumer/chain.py         | 13 ++++++++-----
 src/chainconsumer/chainconsumer.py |  9 +++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 0078ff1..969258f 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -283,11 +283,7 @@ class Chain(ChainConfig):
         if self.num_free_params is not None:
             assert np.isfinite(self.num_free_params), "num_free_params is not finite"
 
-        if self.statistics is None:
-            if self.multimodal:
-                self.statistics = SummaryStatistic.HDI
-            else:
-                self.statistics = SummaryStatistic.MAX
+        self._default_statistics()
 
         if self.multimodal and self.statistics is not SummaryStatistic.HDI:
             raise ValueError(
@@ -297,6 +293,13 @@ class Chain(ChainConfig):
 
         return self
 
+    def _default_statistics(self) -> None:
+        if self.statistics is None:
+            if self.multimodal:
+                self.statistics = SummaryStatistic.HDI
+            else:
+                self.statistics = SummaryStatistic.MAX
+
     def _shift_samples(self) -> None:
         # Validation runs again for every plot, on chains which share their dataframe with
         # the one the user made, so shift only once, and never in place
diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index e0242c9..55d6db4 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -175,14 +175,15 @@ class ChainConsumer:
             if override.get("show_contour_labels", chain.show_contour_labels):
                 local_config["shade_alpha"] *= 0.5
 
-            # Check to see if the color is set
-            if chain.color is None:
-                local_config["color"] = next(color_iter)
-
             chain._apply_if_not_user_set(**local_config)
 
             # Apply user overrides
             chain._apply(**override)
+
+            # None asks for the automatic value, also in the override
+            if chain.color is None:
+                chain._apply(color=next(color_iter))
+            chain._default_statistics()
             chain._shift_samples()
 
         return final_chains
-- 
2.43.0


From 56cc5a0f475d43332c0f31267c8fadb482b3595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:13 +0000
Subject: [PATCH 51/54] fix: plots of only points of chains without a posterior
 crashed on infinite limits

---
 src/chainconsumer/plotter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 437f558..2972c2c 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -923,6 +923,14 @@ class Plotter:
             min_val = min(min_prop, min_val)
             max_val = max(max_prop, max_val)
 
+        if min_val > max_val:
+            # Points of chains without a posterior cannot be drawn, so there is only the data to go by
+            for chain in chains:
+                if column in chain.samples:
+                    data = chain.get_data(column)
+                    min_val = min(data.min(), min_val)
+                    max_val = max(data.max(), max_val)
+
         return min_val, max_val
 
     def _sanitise_chains(
-- 
2.43.0


From 6a6282ef68e49c2989c00c585b0cbea6b9b87fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 52/54] fix: the override can mark chains as multimodal without
 naming the statistic

---
 src/chainconsumer/chainconsumer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index 55d6db4..71333ca 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -164,6 +164,8 @@ class ChainConsumer:
         global_config["sigmas"] = [0, 1, 2]
         global_config["shade"] = num_chains < 5
         global_config["shade_alpha"] = 1.0 / np.sqrt(max(1, num_chains))
+        # The default depends on multimodal, which the override can change
+        global_config["statistics"] = None
 
         color_iter = colors.next_colour()
 
-- 
2.43.0


From 9a9f6ce8860931089af90054e74ae1fcc4adc631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:59 +0000
Subject: [PATCH 53/54] fix: summarise parameters that take only two or three
 distinct values

The extents leave out the lowest and the highest of a few distinct values; when nothing remained between them the histogram was empty and max statistics failed with an IndexError.
---
 src/chainconsumer/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index a0e840f..31a68da 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -32,6 +32,9 @@ def get_extents(
     i2 = np.where(icdf > threshold)[0][0]
     lower = float(bc[i1])
     upper = float(bc[-i2])
+    if not np.any((data >= lower) & (data <= upper)):
+        # The outermost of a few distinct values are left out, but not when nothing else remains
+        lower, upper = float(be[0]), float(be[-1])
     if pad:
         width = upper - lower
         lower -= 0.2 * width
-- 
2.43.0


From 1d18e8eba1cc24f67ba862a49cdb8353ed5ffb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:59 +0000
Subject: [PATCH 54/54] fix: draw contours of chains with a steep shade
 gradient

A shade gradient of ten or more took the logarithm of a negative number and failed with a ValueError.
---
 src/chainconsumer/plotting/contours.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 9141334..7991a8e 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -297,7 +297,8 @@ def _convert_to_stdev(sigma: np.ndarray) -> np.ndarray:  # pragma: no cover
 def _scale_colours(colour: ColorInput, num: int, shade_gradient: float) -> list[str]:  # pragma: no cover
     """Scale a colour lighter or darker."""
     # http://thadeusb.com/weblog/2010/10/10/python_scale_hex_color
-    minv, maxv = 1 - 0.1 * shade_gradient, 1 + 0.5 * shade_gradient
+    # Steep gradients end in black, as there is no colour below it
+    minv, maxv = (max(0.01, v) for v in (1 - 0.1 * shade_gradient, 1 + 0.5 * shade_gradient))
     scales = np.logspace(np.log(minv), np.log(maxv), num)
     colours = [colors.scale_colour(colour, scale) for scale in scales]
     return colours
-- 
2.43.0

