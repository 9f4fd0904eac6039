"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, pathlib
S = "src/chainconsumer/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files], state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
                     mechanism=[dict(name=n, where=S + w) for n, w in mech], observe_at=observe, hook_needed=None)))

prop("C01", "Chains form an insertion-ordered collection keyed by unique name",
 "After any sequence of adding chains or markers and removing them by name or by object, the consumer holds exactly the accepted, not yet removed chains in insertion order, and names, lookup, summaries, tables, best-fit points, diagnostics, model comparisons and plots all reflect that one ordered set. Adding a name already present, or fetching or removing an unknown one, is rejected and changes nothing. Asking for a subset of chains (by name or by object) yields exactly those, in the order given.",
 ["histories"], "every add/add-marker/remove/get history up to the depth bound over a small set of names, with every observer evaluated in every reached state",
 "Tests add one to three chains once and remove at most one; no test walks add/remove/re-add histories or compares all observers.",
 ["chainconsumer.py", "plotter.py", "analysis.py", "diagnostic.py", "comparisons.py"],
 [("add_chain/add_marker/remove_chain/get_chain/get_names", "chainconsumer.py"), ("chain selection", "plotter.py _sanitise_chains")],
 ["get_names", "get_chain", "analysis.get_summary", "analysis.get_latex_table", "diagnostic results", "comparison results", "figure artists"],
 [("_chains", "name to chain, in insertion order", "chainconsumer.py")])

prop("C02", "Effective settings: override beats explicit choice beats automatic default",
 "For every chain and every display setting, what is drawn and summarised uses the consumer-wide override where it sets that field, otherwise the value given explicitly to the chain, otherwise the automatic default: successive distinct palette colours for uncoloured chains, shading and bar shading switched off from five contour chains on, and shade opacity one over the square root of the number of contour chains, halved for chains showing contour labels. Only the fields an override names are overridden, and replacing the override fully replaces its effect. Working out effective settings never modifies the chains or the override the user supplied.",
 ["configurations", "histories"], "every field x {unset, explicit, overridden, both} x number of contour and non-contour chains, and override replacement sequences",
 "Tests check a couple of overrides on one or two chains; the precedence lattice and the chain-count thresholds are never enumerated.",
 ["chainconsumer.py", "chain.py", "base.py", "plotter.py"],
 [("_get_final_chains", "chainconsumer.py"), ("_apply_if_not_user_set/_apply", "chain.py"), ("get_user_specified_dump", "base.py")],
 ["artist colours, alphas, widths, styles, fills and z-orders in figures", "analysis.get_summary", "attributes of the user's chain objects before and after"],
 [("_global_chain_override", "override in force", "chainconsumer.py"), ("_user_specified", "explicitly given fields", "base.py")])

prop("C03", "Results depend only on current contents, never on earlier calls",
 "Any query or plot gives the same result as on a freshly built consumer holding the same chains, truths, override and plot configuration, whatever queries, plots, additions, removals, reconfigurations or failed calls came before. No query or plot alters the user's chains, sample data, truths, override, plot configuration or argument lists. Separate consumers never influence one another.",
 ["histories"], "every operation history up to the depth bound, mixing mutators and all observers, compared with a fresh build of the final contents",
 "Tests call one method on a freshly built object; caching, aliasing and state leakage only show in sequences of calls.",
 ["chainconsumer.py", "plotter.py", "analysis.py", "chain.py", "helpers.py", "plotting/contours.py"],
 [("per-call copies of chains", "chainconsumer.py _get_final_chains"), ("recomputation on every call", "analysis.py"), ("extent merging", "plotter.py _get_custom_extents")],
 ["return values of every analysis/diagnostic/comparison call", "figure contents", "user objects after each call"],
 [("_chains/_truths/_global_chain_override/_config", "consumer state", "chainconsumer.py, plotter.py")])

prop("C04", "Chains take in samples faithfully or reject them",
 "A chain holds a private copy of the given samples, with unit weights when none are supplied, and treats as parameters, in order, every column except the designated and conventionally named weight and posterior columns; later changes to the caller's data never reach it. It rejects empty or non-finite data, non-positive weights, a missing custom weight column, a missing colour parameter, sample counts not divisible by the walkers, out-of-range settings, and multimodal chains with a non-HDI statistic. With mean shifting on, each parameter's weighted mean becomes zero and nothing else changes.",
 ["inputs", "configurations"], "every combination of column kinds, weight/posterior naming, defect injected, walkers, shifting and setting boundary value in the alphabet",
 "Tests try a few valid and invalid constructions one at a time, never the combinations (e.g. shifting with weight and posterior columns present).",
 ["chain.py"], [("_validate_model, _copy_df, data_columns", "chain.py")], ["Chain(...) outcome", "samples, weights, log_posterior, data_columns, plotting_columns, skip"])

prop("C05", "Splitting a chain by walker partitions its samples in order",
 "Dividing a chain that has several walkers gives one equally long chain per walker, named after it, which concatenate back to exactly the original rows, weights and posteriors, are themselves fully usable, and keep the chain's other settings except its colour and walker count. Dividing leaves the original untouched; single-walker and grid chains are refused.",
 ["inputs", "configurations"], "every walker count dividing small sample counts x index labelling x weight/posterior columns x carried settings",
 "One test divides one chain with two walkers and looks at the means.",
 ["chain.py"], [("divide", "chain.py")], ["returned chains' samples, names and settings", "summaries and best-fit points of the parts"])

prop("C06", "The best-fit point is the row with the highest posterior",
 "For each chain with a posterior, the reported maximum-posterior point is the row with the largest log posterior (the first one on ties), giving that log posterior and that row's values for exactly the plotted parameters; chains without a posterior report nothing. This holds whatever the row labels, row order, weights, posterior column name or subset of chains requested, and points drawn on plots sit at exactly that location.",
 ["inputs"], "every placement of the maximum (incl. ties and negative values) x row labelling x column naming x subset of chains",
 "Tests use default row labels and one maximum position.",
 ["chain.py", "analysis.py", "plotting/contours.py"], [("max_posterior_row/get_max_posterior_point", "chain.py"), ("get_max_posteriors", "analysis.py"), ("plot_point", "plotting/contours.py")],
 ["get_max_posterior_point", "analysis.get_max_posteriors", "scatter artists"])

prop("C07", "Covariance and correlation are the weighted sample moments",
 "For any chain and any selection and order of its columns (a single one included), the covariance matrix equals the unbiased weighted sample covariance labelled by those columns, and the correlation matrix is the covariance scaled to unit diagonal, symmetric and within [-1, 1]. The LaTeX covariance and correlation tables show these values to two decimals in the matching row and column, under the configured labels, caption and reference label.",
 ["inputs"], "every column subset and order x weight pattern x sample shape x label configuration in the alphabet",
 "Tests check one 2- or 3-column gaussian at loose tolerance; single-column and reordered selections are untested.",
 ["chain.py", "analysis.py"], [("get_covariance/get_correlation", "chain.py"), ("_get_2d_latex_table", "analysis.py")], ["get_covariance", "get_correlation", "get_covariance_table", "get_correlation_table"])

prop("C08", "Summary intervals enclose the requested probability with the stated centre",
 "For every chain, parameter, summary statistic and requested area, the interval holds the requested fraction of the weighted samples to within histogram resolution and is ordered lower, centre, upper. Cumulative and max-central leave equal probability in both tails, mean has the same interval centred on its midpoint, max bounds the peak at equal density, and HDI is the narrowest such interval; the centre is the median for cumulative, the density peak for max and max-central, and halves the enclosed probability for HDI. Weights, gridded chains, KDE smoothing and the power setting are all honoured.",
 ["inputs", "configurations"], "every distribution shape x weighting x statistic x area x smoothing/binning/KDE/grid/power setting in the alphabet",
 "Tests check one or two shapes at the default area for each statistic; combinations of area, weights, smoothing, KDE, grid and power are not covered.",
 ["analysis.py", "helpers.py", "kde.py"], [("get_parameter_summary_*", "analysis.py"), ("_get_smoothed_histogram", "analysis.py"), ("get_smoothed_bins/get_extents/get_grid_bins", "helpers.py")], ["analysis.get_summary"])

prop("C09", "Summaries do not depend on irrelevant details of the samples",
 "Parameter summaries are unchanged by reordering rows, relabelling rows, renaming or adding other columns and chains, or multiplying all weights by a constant; splitting a sample into several rows that share its weight, or merging repeats into weights, leaves them unchanged up to rounding (kernel-smoothed chains aside, whose bandwidth follows the number of rows). Shifting, rescaling or negating a parameter shifts, rescales or mirrors its summary accordingly, at any magnitude.",
 ["inputs"], "every transformation (and pair of transformations) x statistic x smoothing/KDE x shape in the alphabet",
 "Relations between two runs are not tested at all; the samples in tests are order-one in scale.",
 ["analysis.py", "helpers.py", "kde.py"], [("_get_smoothed_histogram", "analysis.py"), ("get_extents", "helpers.py"), ("MegKDE", "kde.py")], ["analysis.get_summary"])

prop("C10", "Multimodal summaries are the disjoint highest-density bands",
 "For a chain marked multimodal, a parameter with several density modes is reported as disjoint bands in increasing order that together hold the requested probability, with density inside the bands at least that outside, and each band centred on its own density peak. A single-band parameter is reported exactly as its HDI summary. The bands follow the requested area and are equivariant under rescaling and shifting of the parameter.",
 ["inputs", "configurations"], "every mixture (number, spacing, widths, weights of modes) x area x scale x smoothing in the alphabet",
 "Tests use one two-mode mixture at unit scale.",
 ["analysis.py"], [("get_parameter_hdi_intervals/get_parameter_multimodal_bounds", "analysis.py")], ["analysis.get_summary", "analysis.get_parameter_hdi_intervals"])

prop("C11", "Formatted parameter text states the summary's numbers",
 "Reading back the text for any finite bound gives the centre and both errors to within rounding at the displayed last digit, with at least two significant figures of the smaller non-zero error, a common power of ten applied consistently, and the plus-minus form used exactly when both displayed errors are the same. Labels and dollar wrapping only surround that text, missing bounds give an empty string, and a list of several bounds gives one numbered line per band in order.",
 ["inputs"], "every combination of centre, upper and lower error mantissas, signs and decades in a grid spanning rounding boundaries, and every wrap/label/list form",
 "Tests check about a dozen hand-picked bounds.",
 ["analysis.py"], [("get_parameter_text/_format_single_bound", "analysis.py")], ["analysis.get_parameter_text"])

prop("C12", "The LaTeX parameter table shows every summary in its own cell",
 "For any chains, columns, labels and plot configuration, the table has exactly one row per model and one column per parameter (or the transpose), in the requested order, with headers from the configured labels, each cell holding the formatted summary of that parameter for that model and the blank filler exactly where the chain lacks it. Column specification, rules, caption and reference label match the request for any text, blinded parameters are absent, and a file written holds exactly the returned text.",
 ["inputs", "configurations"], "every combination of chain set with missing columns, column selection, transpose, hlines, blank fill, caption/label text, blinding and file output in the alphabet",
 "Tests compare a handful of full strings with default options.",
 ["analysis.py", "helpers.py"], [("get_latex_table", "analysis.py"), ("get_latex_table_frame", "helpers.py")], ["analysis.get_latex_table", "file output"])

prop("C13", "AIC, BIC and DIC follow their formulas and rank models correctly",
 "For the chains with the needed ingredients, the corrected AIC, BIC and (weighted) DIC equal their textbook formulas relative to the best model, so the best has exactly zero; chains lacking an ingredient are left out without affecting the others. The comparison table lists the models in the requested order by the requested criterion with one correctly filled column per enabled criterion and a matching column specification.",
 ["inputs", "configurations"], "every assignment of posteriors, weights, data counts and parameter counts (present or missing) to one to three models x table options",
 "Tests use one or two chains per criterion with fixed numbers and never combine missing ingredients with several models or table options.",
 ["comparisons.py"], [("aic/bic/dic/comparison_table", "comparisons.py")], ["comparison.aic/bic/dic", "comparison.comparison_table"])

prop("C14", "Convergence diagnostics follow their definitions for every chain set",
 "Gelman-Rubin passes a chain exactly when, for every parameter, the potential scale reduction computed over its equal consecutive walker segments is within the threshold of one; Geweke passes exactly when the walkers' early-versus-late z-scores are consistent with normality at the threshold. Multi-chain calls report each selected chain's own verdict under its name and pass overall exactly when all do, and Gelman-Rubin refuses single-walker chains.",
 ["inputs", "configurations"], "every assignment of walker offsets/variances per parameter x walkers x threshold x first/last windows x chain selection form in the alphabet",
 "Tests use one good and one bad chain with two walkers at default thresholds.",
 ["diagnostic.py"], [("gelman_rubin/geweke", "diagnostic.py")], ["diagnostic.gelman_rubin", "diagnostic.geweke"])

prop("C15", "Blinded parameters reveal no values anywhere",
 "When a parameter is blinded (by name, or all at once), no plot shows tick labels or summary text for it on any axis, linear or logarithmic, major or minor, and the LaTeX parameter table leaves it out, for every layout option and plot type. Unblinded parameters keep their values shown.",
 ["configurations"], "every blind set x plot type x flip/hist/log/summary layout option x number of columns in the alphabet",
 "Tests only check that blinding does not crash one plot.",
 ["plotter.py", "analysis.py"], [("blind handling", "plotter.py _sanitise_blinds/_get_triangle_figure/plot_*"), ("get_latex_table", "analysis.py")], ["tick labels, titles and texts of figures", "LaTeX tables"])

prop("C16", "Every panel of the triangle plot belongs to its parameter pair",
 "For any columns in any order, each lower-triangle panel shows its column parameter horizontally and its row parameter vertically, with exactly the data, limits and scale of those parameters; panels above the diagonal are empty; only the bottom row and left column carry labels and ticks, with the configured labels. Diagonal panels show one marginal per contour chain having that parameter, vertical limits covering the tallest; with two parameters and flipping on, the second marginal is rotated and nothing else changes; with marginals off only the pair panels remain.",
 ["configurations"], "every column selection/order x plot_hists x flip x log-scale set x extents x label x chain mix (missing columns, points, clouds) in the alphabet",
 "Tests only check that plotting does not raise.",
 ["plotter.py", "plotting/contours.py"], [("_get_triangle_figure/plot", "plotter.py"), ("plot_surface", "plotting/contours.py")], ["axes, artists, limits, scales, labels and ticks of the figure"])

prop("C17", "Truth values are marked at the right place in every plot",
 "Every truth is drawn in every panel of every plot type that shows one of its parameters, as a line across the axis of that parameter at its value (vertical when the parameter is horizontal), or as a marker at the pair when both values and a marker are given, using its own colour, style, width and opacity; several truths are all drawn. Panels for parameters a truth does not mention show nothing for it, and a truth may be given as a mapping or a series.",
 ["configurations"], "every set of one or two truths with subset locations x marker x style x plot type x flip/log option in the alphabet",
 "Tests only construct truths; where they are drawn is never checked.",
 ["truth.py", "plotting/truth.py", "plotter.py"], [("plot_truths", "plotting/truth.py"), ("_plot_walk_truth, plot_summary truth lines", "plotter.py")], ["line and marker artists per panel"])

prop("C18", "2D contours enclose the requested probability of the weighted samples",
 "Each contour drawn for a chain is an iso-density line enclosing, within resolution, the probability of its sigma level (one-dimensional by default, two-dimensional if so configured) of the weighted samples, with the horizontal parameter on the horizontal axis, nested levels, and shaded bands between the same levels. Clouds show only real sample pairs (with matching colour values), fewer than twice the requested number of them, spread over the whole chain, and points sit at the best fit.",
 ["inputs", "configurations"], "every 2D shape x weighting x sigma list x sigma2d x smoothing/bins/KDE/grid/power x cloud size in the alphabet",
 "Tests only check that plotting does not raise.",
 ["plotting/contours.py", "helpers.py"], [("plot_contour/_convert_to_stdev/_get_levels/plot_cloud/plot_point", "plotting/contours.py"), ("get_smoothed_histogram2d", "helpers.py")], ["contour paths and levels", "scatter offsets and arrays", "contour label texts"])

prop("C19", "1D marginals are the weighted density, shaded and titled by the summary",
 "Each marginal drawn is the chain's weighted sample density for that parameter, normalised to unit area times the chain's relative height (or its stated power), whether histogrammed, smoothed, gridded or kernel estimated, upright or rotated. Its shading covers exactly the summary interval (each band when multimodal) up to the curve when bar shading is on and the parameter is constrained, and its title is the label and formatted text of the same summary the tables report. The lightweight external-axis helper draws the same curve.",
 ["inputs", "configurations"], "every shape x weighting x smoothing/bins/KDE/grid/power/height x statistic x bar shading x multimodal x flip in the alphabet",
 "One test checks the height of one unsmoothed and one KDE bar plot.",
 ["plotter.py", "analysis.py", "plotting/contours.py"], [("_plot_bars", "plotter.py"), ("_get_smoothed_histogram", "analysis.py"), ("plot_dist", "plotting/contours.py")], ["line/patch/fill artists and titles"])

prop("C20", "Walk plots show every sample in order",
 "The walk plot has one row per parameter in order, preceded by a log-posterior row and a weight row when requested and available; each row shows, for every selected chain having it, the samples in chain order against their index (posterior relative to its own maximum, weights or their base-ten logarithm), with thinning only above a hundred thousand points, and the index axis covers the longest chain. A requested convolution overlays the moving average of that width with the ends trimmed, and labels, custom extents, log scales and colours follow the configuration.",
 ["inputs", "configurations"], "every combination of chain mix (lengths, missing columns, posterior, weights), flags, convolution width, log/extents/labels in the alphabet",
 "Tests only check that the plot is produced.",
 ["plotter.py"], [("plot_walks/_plot_walk", "plotter.py")], ["scatter offsets, lines, labels and limits"])

prop("C21", "Distribution plots give each parameter its own labelled panel",
 "The distribution plot shows one panel per requested parameter in order, wrapped at the given number of columns with surplus panels blank, each holding one marginal per selected contour chain that has it, with the parameter's configured label, limits and scale and vertical limits covering the tallest curve. The summary title appears exactly when summaries are on, a single chain is shown and the parameter is not blinded, and it equals the reported summary.",
 ["configurations"], "every column selection x wrap width x chain mix x log/blind/label/extents/summarise option in the alphabet",
 "Tests only check that the plot is produced.",
 ["plotter.py"], [("plot_distributions", "plotter.py")], ["axes grid, artists, labels, limits and titles"])

prop("C22", "Summary plots put each model's parameter summary in its own cell",
 "The summary plot has one row per chain, labelled with its name, and one column per parameter, titled with its configured label, in order; each cell shows that chain's marginal (or, in error-bar mode, the summary centre with its lower and upper errors) and is empty when the chain lacks the parameter. All cells of a column share the parameter's limits, scale and vertical range, and only unblinded bottom cells show ticks.",
 ["configurations"], "every chain mix (missing columns, overlapping widths) x columns x errorbar x log/blind/label/extents/colour option in the alphabet",
 "Tests only check that the plot is produced.",
 ["plotter.py"], [("plot_summary", "plotter.py")], ["axes grid, artists, titles, limits and ticks"])

prop("C23", "Legends and colours identify the chains that were drawn",
 "A legend appears when configured, or by default exactly when more than one chain is drawn, in the configured panel, and lists exactly the drawn chains marked for the legend in order, each with the colour, line style, width and marker its own artists use. Chains with nothing to draw are skipped everywhere, and uncoloured chains get pairwise distinct colours that agree across all panels and plot types.",
 ["configurations"], "every mix of contour/point/cloud/hidden/skipped chains, explicit and automatic colours, legend options and layouts in the alphabet",
 "Tests do not inspect legends.",
 ["plotter.py", "chainconsumer.py", "color_finder.py"], [("get_artists_from_chains/plot legend", "plotter.py"), ("colour assignment", "chainconsumer.py")], ["legend handles and texts", "artist colours"])

prop("C24", "The kernel density estimate is the weighted matched-Gaussian density",
 "For any weighted samples in one or more dimensions, the estimate at any point is proportional to the weighted sum of Gaussian kernels shaped by the sample covariance with the documented bandwidth and factor, truncated at the documented radius, using the nearest few samples where too few are in range. It is non-negative, finite, linear in the weights, independent of the order of samples and of query points, and invariant (up to a constant) under invertible affine changes of coordinates.",
 ["inputs"], "every sample set x dimension x weighting x factor x truncation x query placement, and every transformation, in the alphabet",
 "Tests compare one or two 1D/2D gaussians at loose tolerance.",
 ["kde.py"], [("MegKDE", "kde.py")], ["MegKDE(...).evaluate(...)"])

prop("C25", "Axis limits cover the chains' probability and honour requested limits",
 "Unless custom limits are configured for a parameter (then exactly those apply), each parameter's axis spans the union over the selected chains of their central probability range: all but a ten-thousandth in each tail for wide limits, all but five percent for error-bar summaries, the full range for gridded chains and the best-fit value for point-only chains. Limits are finite and ordered, equivariant under shifting and rescaling, use weights, ignore chains lacking the parameter and the order of chains, and adding a chain never shrinks them.",
 ["inputs", "configurations"], "every shape x weighting x chain mix x extents configuration x plot type in the alphabet, incl. skewed, discrete and few-sample data",
 "One test checks a symmetric gaussian's limits.",
 ["helpers.py", "plotter.py"], [("get_extents", "helpers.py"), ("_get_parameter_extents/_get_custom_extents", "plotter.py")], ["axis limits of figures", "helpers.get_extents"])

prop("C26", "Every advertised colour form resolves to a valid drawable colour",
 "Every named colour, alias, hex string and RGB(A) list or array resolves to a valid hex colour, hex input unchanged, lists to the same colour they denote, and unknown names are refused. Lightening or darkening any resolved colour gives a valid hex colour scaled channel by channel and clamped, and the automatic sequence has no repeats over its whole length. Any of these forms can be given to a chain and drawn in every plot type.",
 ["inputs"], "every palette name, alias, 3/4/6/8-digit hex form, list and array form x scale factor x use site",
 "Tests try a few names and one hex code.",
 ["color_finder.py", "plotting/contours.py", "plotter.py"], [("Colors.format/scale_colour/next_colour/get_colormap", "color_finder.py")], ["colors API", "artist colours"])

prop("C27", "Chains built from samplers hold exactly the sampler's draws",
 "A chain built from an emcee, numpyro or arviz result has one column per selected scalar parameter holding exactly that parameter's draws in the sampler's order, after the requested discarding and thinning, with names matched to their own values whatever order they are requested in, and other chain options passed through. Inclusion lists keep exactly the named parameters, tilde lists drop exactly those, an empty or absent list keeps all, and mixed lists are refused.",
 ["inputs", "configurations"], "every combination of dims, walkers, steps, discard, thin, and inclusion/exclusion subset and order in the alphabet",
 "Tests build each kind once with few selections.",
 ["chain.py"], [("from_emcee/from_numpyro/from_arviz/_filter_var_names", "chain.py")], ["resulting chain samples"])

prop("C28", "Synthetic sample helpers are reproducible and match their specification",
 "The example-sample generator with a given seed always returns the identical frame, with the requested numbers of points and dimensions, unit-variance parameters at the documented means and the exact log density of each row, whatever global random state surrounds it. The covariance constructor yields a chain whose columns, in the order given, have the requested means and covariance to within sampling error.",
 ["inputs"], "every seed x dimension x size x flag x surrounding random state in the alphabet; a grid of means and covariances",
 "Tests never call the generator twice with the same seed.",
 ["examples.py", "chain.py"], [("make_sample", "examples.py"), ("from_covariance", "chain.py")], ["make_sample", "Chain.from_covariance"])

prop("C29", "Figures are saved, sized and styled as requested and side effects end there",
 "Every plot returns a figure of the requested size and writes it to each requested file, in that file's format, at the configured resolution, leaving the figure usable; without a filename nothing is written. The watermark appears exactly when configured, text style settings take effect as configured and restoring puts back the matplotlib settings found at construction, and tick counts, and in the triangle and distribution plots tick font sizes and rotations, follow the configuration.",
 ["configurations", "histories"], "every plot type x size form x file list x dpi x watermark x style option, and plot/restore histories, in the alphabet",
 "Tests never save to files, restore settings or check sizes beyond one enum test.",
 ["plotter.py", "plotting/watermark.py", "plotting/config.py"], [("FigSize/_save_fig/set_rc_params/restore_rc_params", "plotter.py"), ("add_watermark", "plotting/watermark.py")], ["figure size, texts, tick objects", "files", "matplotlib rcParams"])

prop("C30", "The drawing helpers draw on the user's own axes what the plots draw",
 "Called on any axes of any figure and with any chain, whether or not it belongs to a consumer, the public helpers for contours, clouds, best-fit points, surfaces, distributions and truths add to that axes exactly the artists the triangle plot shows for that chain and those parameters. Existing artists, limits the user has set, labels, other axes, the current axes and the chains are left alone, repeated calls add up, and a chain lacking one of the parameters is skipped by the surface helper.",
 ["inputs", "configurations", "histories"], "every helper x kind of axes x chain style x kind of samples x options, and every sequence of helper calls, in the alphabet",
 "Tests only reach the helpers through the triangle plot, on its own axes.",
 ["plotting/contours.py", "plotting/truth.py", "plotter.py", "__init__.py"], [("plot_contour/plot_cloud/plot_point/plot_surface/plot_dist", "plotting/contours.py"), ("plot_truths", "plotting/truth.py")], ["artists on the user's axes"])

prop("C31", "Every accepted combination of settings can be summarised and drawn",
 "Every chain and plot configuration the library accepts, in any combination of documented settings, given on the chain, by override or by the configuration, and any sound samples (weighted, gridded, few, many, tiny, huge, integer, multimodal), can be summarised, tabulated and drawn in every plot type and subset: each call completes, with finite artists and finite, ordered axis limits.",
 ["configurations"], "every pair (thorough: triple) of non-default settings x kind of samples x call, set on the chain or by override",
 "Tests draw a few configurations; most pairs of settings are never drawn together.",
 ["chain.py", "plotter.py", "plotting/config.py", "plotting/contours.py", "truth.py", "analysis.py"], [("ChainConfig/Chain", "chain.py"), ("PlotConfig", "plotting/config.py"), ("Truth", "truth.py"), ("plot/plot_walks/plot_summary/plot_distributions", "plotter.py")], ["completion of every call", "finite artists and limits"])

prop("C32", "Colour bars explain the coloured clouds",
 "In the triangle plot each parameter that colours a cloud in some panel has exactly one colour bar, with the parameter's configured label (weights are called so) and, unless blinded, ticks; there are no other bars, in this or any other plot. The bar's range spans the colour values of all clouds coloured by that parameter, and the colour of each cloud point of every chain in every panel is the bar's colour at that sample's value. Bars overlap neither panels nor one another.",
 ["inputs", "configurations"], "every set of chains x colour parameter x value range x missing parameter x configuration in the alphabet",
 "Tests draw one chain coloured by one parameter and do not look at the bar.",
 ["plotter.py", "plotting/contours.py"], [("plot", "plotter.py"), ("plot_surface/plot_cloud", "plotting/contours.py")], ["colour bars", "colours of cloud points"])

prop("C33", "Settings outside their documented range are refused, all others are held exactly",
 "Constructing a chain by any route, a chain configuration, a plot configuration or a truth is refused when any setting is of the wrong kind, outside its documented range (areas, marker sizes, walkers, counts, heights, font sizes, ticks, spacing, resolution), an unknown or malformed colour, a missing colour or weight column, a multimodal chain with a statistic other than HDI, or a thick edge on an unfilled truth marker, whatever the other settings are. Otherwise it succeeds, end points included: every setting given is held unchanged (colours as the hex code they denote, series as dictionaries), every other one has its documented default, and objects never share mutable settings.",
 ["inputs", "configurations"], "every value of every setting alone, every pair of settings and all settings at once, by every route",
 "Tests refuse one value of a few settings.",
 ["base.py", "chain.py", "color_finder.py", "plotting/config.py", "truth.py"], [("ChainConfig/Chain", "chain.py"), ("PlotConfig", "plotting/config.py"), ("Truth", "truth.py"), ("Colors.format", "color_finder.py")], ["acceptance and refusal", "stored values", "defaults"])

pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
