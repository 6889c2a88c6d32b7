#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, pathlib
S = "src/chainconsumer/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": a, "meaning": b, "where": S + c} for a, b, c in state],
            "mechanism": [{"name": a, "where": S + b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


p("C01", "Read-only calls never modify user state",
  "Producing plots, summaries, tables, diagnostics, comparisons and best-fit points never modifies a registered chain or "
  "its samples, a truth, the override or plot configuration, or any list, dict or array the caller passed in. Only the "
  "documented add/remove/set calls change a consumer, so any sequence of read-only calls leaves it exactly as it was.",
  ["histories", "inputs", "configurations"], "every sequence of read-only calls, on every consumer and configuration",
  "The tests call one method per consumer and never compare the inputs before and after; an aliasing write shows only for particular options and call orders.",
  ["chain.py", "chainconsumer.py", "analysis.py", "plotter.py", "comparisons.py", "diagnostic.py", "helpers.py", "kde.py", "plotting/contours.py", "plotting/truth.py", "plotting/watermark.py"],
  [("final chains are copies", "chainconsumer.py:_get_final_chains"), ("extents are merged into a new dict", "plotter.py:_get_custom_extents"),
   ("arithmetic on fresh arrays only", "plotter.py:_plot_bars"), ("config dicts are merged, not updated", "plotting/config.py")],
  [("_chains", "registered chains", "chainconsumer.py"), ("_config", "plot configuration", "plotter.py")],
  ["registered chains and configuration after any read-only call"])

p("C02", "A chain owns its samples",
  "A chain stores its own deep copy of the table it is built from. Nothing the library does while building or using the chain "
  "(default weights, parameter shifting, dividing) changes the caller's table, and later edits to the caller's table never reach the chain.",
  ["inputs", "histories"], "every input table and every construction option",
  "Tests build chains from tables they never look at again.",
  ["chain.py"], [("samples validator copies", "chain.py:Chain._copy_df"), ("validator writes to the copy", "chain.py:Chain._validate_model")],
  [("samples", "the chain's data", "chain.py")], ["caller's DataFrame after Chain(...)"])

p("C03", "Results are history-free and reproducible",
  "Every result depends only on the current chains, configuration and arguments: not on which calls came before, on hash ordering, the clock, "
  "or unseeded random state. Generating an example table with a seed gives the same table every time; drawing samples from a covariance is the only operation random by design.",
  ["histories", "inputs"], "every call history and every interpreter hash seed",
  "Tests run each call once, under one fixed hash seed.",
  ["analysis.py", "plotter.py", "chainconsumer.py", "color_finder.py", "examples.py", "comparisons.py", "diagnostic.py"],
  [("fresh colour generator per call", "chainconsumer.py:_get_final_chains"), ("ordered column discovery", "plotter.py:_sanitise_columns"),
   ("seeded generator", "examples.py:make_sample")], [], ["repeat any call and compare"])

p("C04", "Override beats explicit chain setting beats automatic default",
  "For every chain and option, the value used when plotting or summarising is the global override's if the override set it explicitly, otherwise the value given "
  "explicitly when the chain was created, otherwise the value adjusted to the number of chains (shading) or the default value. An override changes no option it did not set explicitly, and an automatic adjustment made for one chain never affects another.",
  ["configurations", "histories"], "every combination of explicitly set options on chains and override, any number of chains",
  "A handful of option combinations are exercised; precedence is over the product of all options, chains and overrides.",
  ["base.py", "chain.py", "chainconsumer.py", "plotter.py", "analysis.py"],
  [("records explicit keys", "base.py:BetterBase.__init__"), ("only explicit override keys", "base.py:get_user_specified_dump"),
   ("guarded defaults", "chain.py:_apply_if_not_user_set"), ("override applied last", "chainconsumer.py:_get_final_chains"), ("all consumers use final chains", "plotter.py:_sanitise_chains")],
  [("_user_specified", "names given explicitly", "base.py")], ["options of the chains handed to drawing code"])

p("C05", "Colours always resolve to valid, distinct hex codes",
  "Every palette name and every shorthand alias resolves to a full six-digit hex colour, an unknown name raises an error naming it, and rescaling any accepted colour yields a string that is "
  "still a '#' hex colour. Chains without an explicit colour receive pairwise different palette colours, in registration order, for at least the first 80 chains.",
  ["inputs", "configurations"], "every name, alias, hex code, and number of chains",
  "Five colours out of 22 names, 16 aliases and 88 defaults are sampled by tests.",
  ["color_finder.py", "chainconsumer.py"], [("palette table", "color_finder.py:ALL_COLOURS"), ("alias table", "color_finder.py:Colors.__init__"), ("generator order", "color_finder.py:next_colour"), ("lookup", "color_finder.py:format")],
  [("aliases", "shorthand -> palette name", "color_finder.py")], ["colors.format, chain colours in figures"])

p("C06", "Blinded parameters never reveal their values",
  "For a blinded parameter, no plot shows numeric tick labels on an axis or colour bar of that parameter, nor a summary title for it, whatever the plot type and the other options (log scale, flip, hidden histograms). "
  "The parameter table omits blinded parameters. Blinding everything blinds every displayed parameter.",
  ["configurations", "inputs"], "every plot type and every combination of blinding with other options",
  "No test blinds anything; the leak depends on option combinations and on call order on the axes.",
  ["plotter.py", "analysis.py"], [("ticks removed", "plotter.py:_get_triangle_figure, plot_walks, plot_distributions, plot_summary"), ("no summary title", "plotter.py:plot, plot_distributions"), ("columns dropped", "analysis.py:get_latex_table")],
  [("blind", "blinded columns", "plotting/config.py")], ["tick labels, titles, LaTeX text"])

p("C07", "Every panel axis carries exactly one parameter",
  "In every panel of every plot, whatever is placed along an axis (histograms, contour grids, clouds, points, shaded intervals, limits, log scale) belongs to the one parameter that axis stands for, or is that parameter's density. "
  "Horizontal and vertical data are never exchanged and two-dimensional grids are oriented to match their axes.",
  ["inputs", "configurations"], "every set of parameters, chains and layout options",
  "Tests check extents of one parameter and one bar plot; no test draws a two-parameter panel.",
  ["plotter.py", "plotting/contours.py", "helpers.py"], [("row/column to parameter map", "plotter.py:_get_triangle_figure, plot"), ("grid orientation", "plotting/contours.py:plot_contour, helpers.py:get_smoothed_histogram2d")],
  [], ["matplotlib draw calls per panel"])

p("C08", "Truth values are drawn on their own parameter's axis in every plot",
  "Each registered truth that has a value for a displayed parameter is drawn at that value along that parameter's axis in contour, distribution, summary and walk plots, for every truth and using that truth's own style. "
  "A truth without a value for a parameter draws nothing for it and causes no error.",
  ["inputs", "configurations"], "every number of truths with any subset of parameters, every plot type",
  "No test registers a truth.",
  ["plotter.py", "plotting/truth.py", "truth.py"], [("draw", "plotting/truth.py:plot_truths"), ("walk", "plotter.py:_plot_walk_truth"), ("summary", "plotter.py:plot_summary")],
  [("_truths", "registered truths", "chainconsumer.py")], ["axvline/axhline/scatter calls"])

p("C09", "Configured labels are used wherever a parameter is named",
  "Wherever a figure or LaTeX table displays the name of a parameter (axis label, panel title, colour bar label, table header or row), it shows the configured label of that same parameter, falling back to the column name only when no label is configured.",
  ["configurations", "inputs"], "every plot type, table and label mapping",
  "No test sets labels.",
  ["plotter.py", "analysis.py", "plotting/config.py", "plotting/contours.py"], [("lookup", "plotting/config.py:get_label")],
  [("labels", "column -> label", "plotting/config.py")], ["set_xlabel/set_ylabel/set_title/table text"])

p("C10", "Sample values are always combined with their own weights",
  "Every histogram, density estimate, extent, mean, covariance and DIC computed from a chain weights each sample by its own weight. Sample values, weights, log posteriors and colour values that are combined always come from the same chain and the same rows.",
  ["inputs", "configurations"], "every weighted chain and every smoothing, grid, KDE, thinning and power option",
  "Nearly all test chains have unit weights, for which unweighted and misaligned code gives the same numbers.",
  ["analysis.py", "helpers.py", "kde.py", "comparisons.py", "chain.py", "plotter.py", "plotting/contours.py"],
  [("weights passed", "helpers.py:get_extents, get_smoothed_histogram2d"), ("weights passed", "analysis.py:_get_smoothed_histogram"), ("weights used", "kde.py:MegKDE"), ("thinning", "plotting/contours.py:plot_cloud")],
  [("weight column", "importance of each row", "chain.py")], ["np.histogram/np.average/np.cov/KDE calls"])

p("C11", "Only relative weights matter",
  "Multiplying all weights of a chain by the same positive constant changes no summary bound, density curve, contour, extent, covariance, correlation or information criterion.",
  ["inputs"], "every chain and every positive constant",
  "Tests never compare a chain with a re-weighted copy.",
  ["analysis.py", "helpers.py", "kde.py", "comparisons.py", "chain.py", "plotting/contours.py"],
  [("normalised cdf/density", "analysis.py:_get_smoothed_histogram"), ("normalised cdf", "helpers.py:get_extents"), ("normalised contours", "plotting/contours.py:_convert_to_stdev")],
  [], ["summary bounds, plotted densities"])

p("C12", "Summaries follow the units of the parameter",
  "Multiplying a parameter by a positive constant or adding a constant to it transforms its summary bounds, highest-density intervals and plotting extents in exactly the same way, and leaves diagnostics, information criteria and centred (shift_params) parameters under an offset unchanged. "
  "No tolerance, grid size or threshold is an absolute number in the parameter's units.",
  ["inputs"], "every chain, every positive scale factor and offset, every statistic",
  "Test data is always of order one, where absolute tolerances and relative ones coincide.",
  ["analysis.py", "helpers.py", "kde.py", "diagnostic.py", "comparisons.py"],
  [("summary methods", "analysis.py:get_parameter_summary_*"), ("intervals", "analysis.py:get_parameter_hdi_intervals"), ("extents", "helpers.py:get_extents")],
  [], ["get_summary on rescaled samples"])

p("C13", "Information criteria are relative to the best chain",
  "Each of AIC, BIC and DIC is reported relative to the smallest value among the chains it covers, so the best chain has exactly zero and none is negative; adding one constant to the log posterior of all chains changes nothing. "
  "Exactly the chains that have every required input appear, each under its own name; the others are left out with a warning instead of an error.",
  ["inputs", "configurations"], "every set of chains with any subset of the optional inputs",
  "Tests use one or two chains and never shift the posterior or mix complete with incomplete chains.",
  ["comparisons.py"], [("eligibility and shift to minimum", "comparisons.py:aic, bic, dic")], [], ["returned dicts"])

p("C14", "Information criteria follow their documented definitions",
  "Up to the common offset, AIC is 2k - 2 max ln P + 2k(k+1)/(N-k-1), BIC is k ln N - 2 max ln P, and DIC is twice the weighted mean deviance minus the deviance at the weighted mean parameters, with deviance -2 ln P, for the chain's own k free parameters and N data points.",
  ["inputs"], "every k, N and posterior",
  "Tests check a few values of k and N with tolerances and never check the DIC formula.",
  ["comparisons.py"], [("formulas", "comparisons.py:aic, bic, dic")], [], ["returned values"])

p("C15", "The best-fit point is one actual sample row",
  "The maximum-posterior point of a chain is the sample with the largest log posterior: its log posterior and all of its coordinates are read from that same row, whatever the index of the table (filtered, reordered, duplicated or divided). "
  "Without a log posterior column no point is reported.",
  ["inputs"], "every table index and row order",
  "Test tables all have the default 0..n-1 index.",
  ["chain.py", "plotting/contours.py", "analysis.py", "plotter.py"], [("row choice", "chain.py:max_posterior_row"), ("coordinates", "chain.py:get_max_posterior_point")], [], ["get_max_posterior_point, plotted markers"])

p("C16", "Only valid chains can be constructed",
  "Constructing a chain fails for an empty table, a non-string column name, any NaN or infinite entry in any column, a weight that is not strictly positive, a missing custom weight column, a length not divisible by the walkers, a missing colour column, a non-finite free-parameter or data-point count, "
  "or a multimodal chain whose statistic is not HDI. Chains without a weight column get weight one everywhere.",
  ["inputs", "configurations"], "every table and option combination",
  "Tests try one bad value per check, in one column, and not every check has a test.",
  ["chain.py"], [("checks", "chain.py:_validate_model")], [], ["Chain(...) raising"])

p("C17", "Weights and posteriors are never treated as parameters",
  "The weight and log-posterior columns, under their configured names or the standard ones in any letter case, are never among a chain's parameters: by default they are not plotted (apart from the walk plot's own weight and posterior panels), summarised, averaged, correlated or diagnosed. "
  "Building a chain with mean-shifting leaves weights and log posteriors untouched, so weights stay positive.",
  ["inputs", "configurations"], "every column naming, and every use of parameters",
  "Tests use few columns and default names, and never shift parameters.",
  ["chain.py", "comparisons.py", "diagnostic.py", "analysis.py", "plotter.py"], [("filter", "chain.py:data_columns, plotting_columns"), ("shift", "chain.py:_validate_model")], [], ["data_columns, samples after construction"])

p("C18", "Dividing a chain partitions it by walker",
  "Dividing a chain with w walkers gives exactly w chains, in order, that together contain every row of every column (weights and posterior included) once and unaltered, each a single-walker chain named after its walker. "
  "Every option of the original chain carries over except its name, colour and walker count, and dividing a single-walker or gridded chain is refused.",
  ["inputs", "configurations"], "every walker count and option combination",
  "Tests check the number of pieces and one mean.",
  ["chain.py"], [("split and options", "chain.py:divide")], [], ["list returned by divide"])

p("C19", "Convergence verdicts cover every chain with the caller's settings",
  "A diagnostic run on several chains passes exactly when it passes for each of them individually with the same threshold and window settings, and its result has one entry per tested chain under that chain's name holding that chain's own verdict. "
  "For one chain, the Gelman-Rubin verdict requires every parameter to be within the threshold.",
  ["inputs", "configurations"], "every number of chains, thresholds and windows",
  "Tests use two chains that both pass or one that fails, always with default settings.",
  ["diagnostic.py"], [("recursion and conjunction", "diagnostic.py:gelman_rubin, geweke")], [], ["TestResult"])

p("C20", "Missing values are handled, never computed with",
  "An unconstrained or absent limit, a missing log posterior, and absent free-parameter or data-point counts are always checked before being used in arithmetic or drawing. Such inputs yield an omitted entry, an empty text or an unshaded curve, never a crash.",
  ["inputs", "configurations"], "every chain with any subset of optional information, every bound with any subset of limits",
  "Tests hit the fully populated case of nearly every consumer.",
  ["analysis.py", "plotter.py", "plotting/contours.py", "comparisons.py", "chain.py"],
  [("None guards", "analysis.py:get_parameter_text, Bound.array"), ("None guards", "plotter.py:_plot_bars, plot_summary"), ("None guards", "comparisons.py")], [], ["every public call"])

p("C21", "LaTeX tables are well formed for every input",
  "In every generated table the column specification and every header and data row have the same number of cells for all combinations of chains, parameters and switches, rows appear in the order of the headers, and user-supplied captions, labels and names appear literally whatever characters they contain. "
  "The comparison table has one row per compared chain, sorted by the requested criterion and direction, each row carrying that chain's own values. The file written is exactly the text returned.",
  ["inputs", "configurations"], "every number of chains and parameters, every switch, every user text",
  "The table generators are excluded from coverage and no test calls them.",
  ["analysis.py", "comparisons.py", "helpers.py"], [("parameter table", "analysis.py:get_latex_table"), ("matrix table", "analysis.py:_get_2d_latex_table"), ("comparison table", "comparisons.py:comparison_table"), ("frame", "helpers.py:get_latex_table_frame")], [], ["returned string"])

p("C22", "Each summary statistic is computed by its own method",
  "Every available summary statistic is dispatched to its own method, chosen by the chain's configured statistic. The cumulative, mean and max-central methods take their limits at the quantiles 0.5 -/+ area/2 of the marginal for the chain's own summary area, cumulative centres on the median, mean on the midpoint of its limits, and max-central on the density peak.",
  ["inputs", "configurations"], "every statistic, area and chain",
  "The tests of most statistics are commented out; only max and HDI are exercised.",
  ["analysis.py", "statistics.py"], [("dispatch", "analysis.py:get_parameter_summary, Analysis.__init__"), ("methods", "analysis.py:get_parameter_summary_*")], [], ["get_summary"])

p("C23", "Density settings act on every density estimate",
  "The KDE bandwidth, the power and the smoothing chosen for a chain act on every density estimate made for it, one- and two-dimensional, histogram and KDE, summarised or drawn: the bandwidth scales the kernel width, each density is raised to the power exactly once, and drawn marginals are scaled by the relative height.",
  ["configurations", "inputs"], "every combination of kde, power, smooth, grid and relative height",
  "One test sets a power and a few set a KDE, only for one-dimensional summaries.",
  ["analysis.py", "helpers.py", "kde.py", "plotter.py", "plotting/contours.py"],
  [("1D", "analysis.py:_get_smoothed_histogram"), ("2D", "helpers.py:get_smoothed_histogram2d"), ("bars", "plotter.py:_plot_bars"), ("bandwidth", "kde.py:MegKDE")], [], ["density arrays"])

p("C24", "Saved figures are complete and go to every requested file",
  "Every plotting method that accepts file names saves the figure it returns to each requested file, single or list, at the configured resolution, and only after everything has been drawn on it, watermark included. Without a file name nothing is written.",
  ["inputs", "configurations"], "every plot type, number of file names and options",
  "No test saves a figure.",
  ["plotter.py"], [("saving", "plotter.py:_save_fig"), ("call sites", "plotter.py:plot, plot_walks, plot_distributions, plot_summary")], [], ["files on disk"])

p("C25", "Matplotlib settings are only borrowed",
  "The library changes only the text and font-family settings of matplotlib, only when the configuration does not leave them unset, and restoring puts back exactly the values in force when the consumer was created.",
  ["histories", "configurations"], "every configuration and call history",
  "No test looks at matplotlib's settings.",
  ["plotter.py"], [("set/restore", "plotter.py:set_rc_params, restore_rc_params, __init__")], [("usetex_old/serif_old", "values at creation", "plotter.py")], ["matplotlib.rcParams"])

p("C26", "Covariance matrices match their labels and shape",
  "Covariance and correlation matrices are square with one row and column per requested parameter, for any number of parameters including one, in the order of the column names returned with them, weighted by the chain's weights; correlation is covariance divided by the product of both standard deviations. Tables label rows and columns in that order.",
  ["inputs"], "every choice and number of parameters",
  "The covariance and correlation tests are commented out.",
  ["chain.py", "analysis.py"], [("matrices", "chain.py:get_covariance, get_correlation"), ("table", "analysis.py:_get_2d_latex_table")], [], ["Named2DMatrix, LaTeX"])

p("C27", "Everything drawn for a chain uses that chain's own data and style",
  "In any figure, each curve, contour, cloud, point, shaded band, walk, legend entry and row label combines data, name, colour and style of one and the same chain, and every chain selected for the figure that has the panel's parameters is drawn.",
  ["inputs", "configurations"], "every number of chains with any styles",
  "No test draws two chains in one figure.",
  ["plotter.py", "plotting/contours.py"], [("drawing loops", "plotter.py, plotting/contours.py:plot_surface"), ("legend", "plotter.py:get_artists_from_chains, plot")], [], ["matplotlib draw calls"])

p("C28", "Contour levels are the probabilities of the requested sigmas",
  "Contours are drawn at the enclosed probability of each configured sigma of that chain: 2*Phi(sigma)-1 by default and 1-exp(-sigma^2/2) when two-dimensional sigmas are requested. The level surface is the cumulative probability of cells taken in order of decreasing density, normalised to one.",
  ["inputs", "configurations"], "every list of sigmas and both conventions",
  "The level tests are commented out.",
  ["plotting/contours.py"], [("levels", "plotting/contours.py:_get_levels"), ("surface", "plotting/contours.py:_convert_to_stdev"), ("use", "plotting/contours.py:plot_contour")], [], ["contour calls"])

p("C29", "Sampler conversions keep exactly the requested parameters",
  "Converting sampler output keeps exactly the named variables (or all but the '~'-named ones, or all by default) in the sampler's order, rejects a mixture of both forms, treats arviz and numpyro input alike, applies thinning and burn-in removal for emcee, and passes name and every further option to the chain.",
  ["inputs"], "every variable selection and option",
  "Tests select one variable of two and pass no options.",
  ["chain.py"], [("filter", "chain.py:_filter_var_names"), ("constructors", "chain.py:from_emcee, from_numpyro, from_arviz")], [], ["Chain.samples"])

p("C30", "The chain registry is keyed by unique names in insertion order",
  "Adding a chain whose name is taken fails and leaves the registered one in place; removing or fetching an unknown name fails; removal by name or by chain object affects that chain only. Names and default plots follow registration order, and every add/remove/set call returns the consumer itself.",
  ["histories"], "every sequence of add, remove and get calls",
  "Tests add four chains and remove the first.",
  ["chainconsumer.py", "plotter.py"], [("registry", "chainconsumer.py:add_chain, remove_chain, get_chain, get_names")], [("_chains", "name -> chain", "chainconsumer.py")], ["get_names"])

p("C31", "Every documented option takes effect",
  "Each documented option of a chain, truth or plot configuration, and each size or smoothing argument of a plotting call, reaches the output it describes in every plot type that has the feature, rather than being replaced by a constant, ignored, or read from another option. Colour, line style, line width and zorder reach the contours, marginal curves and legend entry of the chain; shade_alpha, shade_gradient and sigmas its contours; marker options its maximum posterior point; cmap and num_cloud its cloud; bins, smooth, kde, power and histogram_relative_height its densities; summary_area its intervals. Truth colours, widths, styles and markers reach the truth's lines and markers. The label, tick, summary and contour-label font sizes reach the texts they name in plot, plot_distributions, plot_summary and plot_walks, max_ticks the tick locators, spacing the panel spacing, legend and watermark keywords the legend and watermark, legend_location the panel. Switches (plot_contour, plot_cloud, plot_point, shade, bar_shade, show_contour_labels, summarise, show_legend, legend_color_text, diagonal_tick_labels, the panel switches of plot_walks) draw their feature exactly when on.",
  ["configurations"], "every option and plot type",
  "Most options are never set by any test.",
  ["plotter.py", "plotting/contours.py", "plotting/config.py", "plotting/truth.py", "plotting/watermark.py", "chain.py", "truth.py", "analysis.py", "helpers.py"],
  [("options", "chain.py:ChainConfig, Chain"), ("options", "plotting/config.py:PlotConfig"), ("options", "truth.py:Truth")], [], ["matplotlib draw calls"])

p("C32", "Displayed text of a bound states that bound",
  "Whatever finite limits a bound has (any magnitude and sign, equal, unequal or zero errors), its text shows the centre, then +(upper - centre) and -(centre - lower), each in its own place and all at the one power of ten the text states, to a place no coarser than the leading digit of the smaller non-zero error. One +/- value is shown only when both errors display alike. The text of several intervals lists and numbers them in their order. Formatting a finite bound never raises.",
  ["inputs"], "every finite bound",
  "Tests format a dozen bounds; the code branches on the decimal magnitude of the smaller error, on zero errors and on the ratio of the errors.",
  ["analysis.py"], [("formatting", "analysis.py:Analysis.get_parameter_text, _format_single_bound")], [], [])

p("C33", "Displays of a summary agree",
  "Whatever the statistic, the number of modes and the overrides, the summary of a parameter of a chain is that of the chain's own statistic and every display of it is that one summary: bands shaded under marginals run exactly over its interval (over each of its intervals for a multimodal chain with several), up to clipping at the drawn range; error bars sit at its centre and reach its limits; titles, plot_dist texts and table cells state its values and no others.",
  ["inputs", "options"], "every statistic, parameter, chain and number of intervals",
  "Tests check that figures are produced and that a few tables have the right text; no test compares what is shaded, titled and tabulated with what get_summary returns.",
  ["analysis.py", "plotter.py", "plotting/contours.py"], [("reported summary", "analysis.py:Analysis.get_summary, get_parameter_summary, get_latex_table"), ("drawn summary", "plotter.py:Plotter._plot_bars, plot_summary; plotting/contours.py:plot_dist")], [], [])

p("C34", "Axis ranges cover everything drawn for the parameter",
  "The range of every parameter axis, unless the user fixed it, includes the range each of the drawn chains having that parameter would get if drawn alone, whatever their order, kind (samples, grid, point only) and number; all panels of one parameter in a figure have one range. Density axes start at zero and reach above every marginal drawn in them; the step axis of a walk reaches the last step of the longest chain. No figure of valid chains ends in an error because a range is empty.",
  ["inputs", "options"], "every set of chains, samples and plot options",
  "Tests compare a few figures of ordinary chains; the range is a fold over the chains that differs for grids, points, clouds, missing parameters and user ranges.",
  ["plotter.py", "helpers.py"], [("ranges", "plotter.py:Plotter._get_parameter_extents, _get_custom_extents; helpers.py:get_extents"), ("axes", "plotter.py:Plotter.plot, plot_distributions, plot_walks, plot_summary")], [], [])

p("C35", "Scatter points and walks show the recorded samples",
  "Points of a cloud are rows of the chain: both coordinates and the colour of a point come from the same row. Thinning for display only drops rows and never reorders or invents them. Walks show every recorded value once, in order, against its step number, with the documented thinning; the posterior walk is the log posterior up to a constant; running averages are drawn at the steps they average.",
  ["inputs", "options"], "every table, number of rows and thinning option",
  "Tests draw clouds and walks of a few thousand ordered rows and compare nothing with the samples.",
  ["plotter.py", "plotting/contours.py"], [("clouds", "plotting/contours.py:plot_cloud"), ("walks", "plotter.py:Plotter.plot_walks, _plot_walk")], [], [])

p("C36", "Densities are shown at the positions they belong to",
  "Wherever a density of a parameter is drawn, filled, contoured, interpolated, integrated or searched, the positions it is paired with are its own: the midpoints of the very bins it was counted in, or the points it was evaluated or interpolated at. Nothing shifts, stretches or mirrors a density along its parameter: in figures of one or two parameters, for histograms, kernel estimates and grids, smoothed or not, and in the intervals and best fits read off from it.",
  ["inputs", "options"], "every sample table and every smoothing, binning, grid, power and kernel option",
  "A shift by half a bin moves every curve and interval by less than the tolerance tests compare with; it depends on the binning and the data.",
  ["analysis.py", "plotter.py", "helpers.py", "plotting/contours.py"], [("marginals", "analysis.py:Analysis._get_smoothed_histogram"), ("curves and fills", "plotter.py:Plotter._plot_bars; plotting/contours.py:plot_dist"), ("surfaces", "helpers.py:get_smoothed_histogram2d")], [], [])

p("C38", "Selecting chains or parameters restricts the output and changes nothing else",
  "A plot, table, summary, list of best-fit points or convergence test for chosen chains (by name, by object or mixed, in any order) is exactly what a consumer holding only those chains, with the same settings, in that order gives: chains that were not chosen leave no trace in what is drawn, the axis ranges, titles, legends, layout and numbers. "
  "A figure of chosen parameters draws in each of its panels exactly what the figure of all parameters draws for the same parameters, with the same axis ranges; a summary of chosen parameters holds the very bounds of the full one. The entries reported for a chain do not depend on the other registered chains.",
  ["inputs", "options"], "every selection of chains and parameters, its form and order",
  "Tests select one or two chains and look at the keys or the absence of an error, not at what else changed.",
  ["plotter.py", "analysis.py", "diagnostic.py"], [("selection", "plotter.py:Plotter._sanitise, _sanitise_chains, _sanitise_columns"), ("summaries", "analysis.py:Analysis.get_summary, get_latex_table, get_max_posteriors"), ("diagnostics", "diagnostic.py:_sanitise_chains")], [], ["all plots, tables, summaries, diagnostics with a selection"])

# ---- not decided by static analysis here (see MANIFEST not_applicable) ----
p("C37", "How a sample table is presented does not change what is read from it",
  "Only the values of a table's columns, row by row and by role, matter: every reading call (plots, summaries, tables, diagnostics, comparisons, covariances, chain accessors, divide) gives the same results and draws the same things, "
  "whatever the row labels of the table are (default, filtered, repeated after concatenation), wherever its weight and log posterior columns stand among the parameter columns, and whatever those two columns are called when the chain is told their names.",
  ["inputs"], "every reading call, presentation of the table and combination of chain options",
  "Test tables all have default row labels with the weight and log_posterior columns last.",
  ["chain.py", "plotter.py", "plotting/contours.py", "analysis.py", "diagnostic.py", "comparisons.py"], [("columns by role", "chain.py:data_columns"), ("rows by position", "chain.py:max_posterior_row")], [], ["all reading calls"])

p("N01", "HDI is the narrowest interval of the requested mass",
  "The reported highest-density interval is (up to grid resolution) the narrowest interval holding at least the requested mass.",
  ["inputs"], "every marginal distribution", "A minimum over runtime values; tests compare a few Gaussians with arviz.",
  ["analysis.py"], [("search", "analysis.py:get_parameter_summary_hdi")])
p("N02", "The max statistic encloses the requested area",
  "The iso-likelihood interval of the default statistic encloses the requested area to within its stated tolerance and the search always terminates.",
  ["inputs"], "every marginal distribution", "Depends on numerical bisection over runtime densities.",
  ["analysis.py"], [("bisection", "analysis.py:get_parameter_summary_max")])
p("N03", "KDE approximates the sampled density",
  "The kernel density estimate converges to the weighted sample density.",
  ["inputs"], "every sample", "A numerical approximation statement.", ["kde.py"], [("evaluate", "kde.py:MegKDE.evaluate")])
p("N04", "Convergence statistics detect non-converged chains",
  "Gelman-Rubin and Geweke flag chains whose walkers disagree and accept converged ones at the stated error rates.",
  ["inputs"], "every chain", "A statistical power statement over runtime samples.", ["diagnostic.py"], [("statistics", "diagnostic.py")])
p("N06", "Contours enclose the stated fraction of samples",
  "A contour drawn at level q encloses a fraction q of the chain's weight up to binning and smoothing.",
  ["inputs"], "every chain", "A numerical statement about runtime histograms.", ["plotting/contours.py", "helpers.py"], [("levels", "plotting/contours.py")])
p("N07", "Covariance sampling reproduces mean and covariance",
  "A chain generated from a mean and covariance has that mean and covariance to sampling accuracy.",
  ["inputs"], "every mean and covariance", "A statistical statement about random draws.", ["chain.py"], [("sampling", "chain.py:from_covariance")])
p("N08", "Figure layout stays legible",
  "Labels, legends, titles and watermark fit the figure without overlapping for any number of parameters.",
  ["configurations"], "every layout", "Depends on rendered text extents at run time.", ["plotter.py", "plotting/watermark.py"], [("layout", "plotter.py:_get_triangle_figure")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P), "properties")
