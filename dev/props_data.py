COMMON_TRUST = ("Trusts the interpreter of Python in /verif/tsa (abstract "
                "interpretation over gated terms, calls inlined, both sides "
                "of undecided branches analysed, loops summarised) and the "
                "table of library behaviour in tsa/libmodel.py. ")

P("P01", "Analyses never modify the data the caller passes in",
  "No constructor, method, property or function of the package changes, in "
  "place, an array, mask, weight map, header, cube or other data object that "
  "the caller passed to it. After any call the caller's data hold what they "
  "held before, whatever options were chosen, so the same object can be given "
  "to the next analysis.",
  ["inputs", "configurations", "histories"],
  "every public entry point, every combination of its options, every data "
  "object given to it",
  "Tests pass freshly made arrays to a few option combinations and never look "
  "at the input afterwards; a view that is written to under one option is "
  "invisible to them.",
  [S + "base_statistic.py", S + "apodizing_kernels.py", S + "delta_variance/delta_variance.py",
   S + "pca/width_estimate.py", S + "pdf/compare_pdf.py", "turbustat/io/input_base.py", "turbustat/io/sim_tools.py"],
  [("data setter copies", S + "base_statistic.py"),
   ("to_arrays(need_copy=True)", "turbustat/io/input_base.py"),
   ("explicit .copy() before NaN fill", S + "mvc/mvc.py")],
  "alias/ownership dataflow analysis (abstract interpretation, calls inlined)",
  COMMON_TRUST + "Complete over all in-place operations reached from all "
  "public entry points; may miss writes done inside third-party code.")

P("P02", "Option dictionaries and default values are never modified",
  "A dictionary or list of options that the caller passes (plot keywords, fit "
  "keywords, FFT keywords, per-dataset run keywords and the like) is never "
  "added to, popped from or otherwise modified, nor is anything nested in it. "
  "Default argument values and module-level tables are never modified either, "
  "so what one call does cannot depend on which calls were made before.",
  ["inputs", "histories", "configurations"],
  "every public entry point, every option container, any sequence of calls",
  "A test calls a function once per dictionary literal; a popped key or a "
  "polluted default only shows on the second call with the same object.",
  [S + "rfft_to_fft.py", S + "base_pspec2.py", S + "dendrograms/dendro_stats.py", S + "pspec_bispec/pspec.py",
   S + "delta_variance/delta_variance.py", S + "vca_vcs/vca.py"],
  [("dict(plot_kwargs)/.copy() before adding labels", S + "base_pspec2.py"),
   ("pyfftw_kwargs popped from own **kwargs dict", S + "rfft_to_fft.py")],
  "container-ownership dataflow analysis (abstract interpretation)",
  COMMON_TRUST + "Complete over all container updates reached from all public "
  "entry points.")

P("P03", "A seed makes results reproducible and leaves the global RNG alone",
  "Wherever an entry point takes a random seed, every random number it uses is "
  "drawn from a generator initialised with exactly that seed, so equal seeds "
  "give equal results. No entry point reseeds or replaces the process-wide "
  "generator: its state is put back after seeded draws.",
  ["inputs", "histories"],
  "every entry point taking a seed, every seed, any earlier use of the "
  "process-wide generator",
  "Tests fix one seed and compare one output; a draw outside the seeded block, "
  "or a leaked global seed, only shows for another history of draws.",
  ["turbustat/simulator/gen_field.py", "turbustat/simulator/make_cube.py", S + "pca/pca.py",
   S + "fitting_utils.py", S + "cramer/cramer.py"],
  [("with NumpyRNGContext(randomseed)", "turbustat/simulator/gen_field.py")],
  "effect analysis of random draws (which seeded context is open on each path)",
  COMMON_TRUST + "Third-party samplers (emcee) without a seed argument are "
  "outside.")

P("P04", "How an analysis is executed never changes its results",
  "Options about execution only -- verbosity, progress bars, plotting and plot "
  "styling, the name a figure is saved under, the FFT back end and whether it is "
  "installed, the number of threads or jobs -- have no influence on any computed "
  "attribute or returned value. Two runs that differ only in such options give "
  "the same results.",
  ["configurations", "inputs"],
  "every entry point with such an option, all values of the option, all values "
  "of the other arguments",
  "Tests run with one back end, verbose off, few plots; they compare no pairs "
  "of runs differing only in an execution option.",
  [S + "rfft_to_fft.py", S + "rfft_to_fft.py", S + "scf/scf.py", S + "stats_utils.py", S + "delta_variance/delta_variance.py",
   S + "pspec_bispec/bispec.py"],
  [("fft back end selected by use_pyfftw", S + "rfft_to_fft.py"),
   ("progress bar wraps the loop only", S + "scf/scf.py")],
  "non-interference: gated result terms compared after substituting both values of each execution option",
  COMMON_TRUST + "Assumes the FFT libraries agree up to rounding.")

P("P05", "Figures and files go exactly where the caller asked",
  "With plotting enabled and no file name, the figure is shown and nothing is "
  "written; with a file name, the complete figure is written to exactly that "
  "name, closed, and never shown; with plotting disabled no figure is touched. "
  "No entry point writes a file whose name does not come from its arguments.",
  ["configurations", "histories"],
  "every plotting entry point, every path through it, the three modes of "
  "plotting",
  "Tests save figures to a scratch name and check at most that the file "
  "exists; order of show/save/close and other paths are not observed.",
  [S + "base_pspec2.py", S + "cramer/cramer.py", S + "pca/pca.py", S + "dendrograms/dendro_stats.py", S + "scf/scf.py"],
  [("if save_name is not None: savefig; close; else: show", S + "base_pspec2.py")],
  "typestate analysis of figure operations along all paths",
  COMMON_TRUST + "Figures are assumed to be handled through matplotlib's "
  "savefig/show/close.")

P("P11", "No accepted combination of options reads something undefined",
  "On every path that a combination of options can take through a constructor, "
  "main analysis method, public method or public function, each variable and "
  "attribute is assigned before it is read, an option left at None is not used "
  "as an object or array, and each internal call passes arguments its target accepts. An unusable combination of options is refused "
  "with a deliberate error instead of failing in the middle with an undefined "
  "name or attribute.",
  ["configurations", "inputs"],
  "every feasible combination of options of every entry point",
  "The number of option combinations is exponential; tests sample the default "
  "and a few others.",
  [S + "delta_variance/delta_variance.py", S + "genus/genus.py", S + "pdf/compare_pdf.py", "turbustat/moments/_moment_errs.py",
   "turbustat/moments/make_moments.py", S + "scf/scf.py"],
  [("definite assignment", "whole package")],
  "path-sensitive definite-assignment and call-compatibility analysis with propositional feasibility",
  COMMON_TRUST + "Loops over data are assumed to run at least once.")

P("P06", "Every option the caller sets takes effect",
  "Each parameter of a constructor, method or function influences the results "
  "it is documented to control, on every path where it applies; where one part "
  "of the package hands its work to another that takes the same option, the "
  "caller's value is handed on. No option is silently replaced by a default.",
  ["inputs", "configurations"],
  "every parameter of every public entry point and every result it controls, "
  "all values of the other parameters",
  "Tests mostly use the defaults, for which a dropped option is invisible.",
  [S + "stat_moments/highstatmoments.py", S + "vca_vcs/vca.py", S + "rfft_to_fft.py", S + "genus/genus.py",
   S + "wavelets/wavelet_transform.py", S + "pca/pca.py", "turbustat/simulator/gen_field.py"],
  [("keyword arguments forwarded by run()", S + "base_pspec2.py")],
  "dataflow (dependence) analysis from parameters to results, against a reviewed dependence table",
  COMMON_TRUST + "Decides whether an option reaches a result, not whether it "
  "has the right numerical effect.")

P("P07", "Distances treat the two data sets alike",
  "Exchanging the two data sets, together with the options given for each, "
  "leaves every distance unchanged, whether each is given as data or as an "
  "analysis made before. What is computed for one data set is computed in the "
  "same way for the other, and an option given for one data set alone does not "
  "reach the other's analysis.",
  ["inputs", "configurations"],
  "every distance class, all inputs, all option combinations, all four "
  "combinations of raw and precomputed inputs",
  "Tests compute each distance in one order with equal options for both data "
  "sets.",
  [S + "scf/scf.py", S + "delta_variance/delta_variance.py", S + "stat_moments/highstatmoments.py",
   S + "dendrograms/dendro_stats.py", S + "genus/genus.py", S + "pdf/compare_pdf.py", S + "vca_vcs/vcs.py"],
  [("parallel blocks for data set 1 and 2", S + "delta_variance/delta_variance.py")],
  "self-composition by renaming: canonical result terms invariant under exchange of paired parameters",
  COMMON_TRUST + "Equality is decided up to rounding by a canonical form; "
  "strict and non-strict comparisons are identified.")

P("P08", "Distances are non-negative, and zero between equal data sets",
  "Every distance between two data sets is greater than or equal to zero, for "
  "any data and options (the Cramer statistic, an energy distance, excepted). "
  "Given the same data set and the same options on both sides, every distance "
  "is exactly zero, on the paths where data are regridded or rescaled to match "
  "each other as well.",
  ["inputs", "configurations"],
  "every distance class and distance attribute, all inputs, all option "
  "combinations",
  "Tests compare a handful of distances with stored numbers for two fixed, "
  "different data sets.",
  [S + "cramer/cramer.py", S + "scf/scf.py", S + "delta_variance/delta_variance.py", S + "base_pspec2.py",
   S + "pspec_bispec/bispec.py", S + "stat_moments/highstatmoments.py", S + "dendrograms/dendro_stats.py",
   S + "genus/genus.py", S + "pca/pca.py", S + "pdf/compare_pdf.py"],
  [("np.abs / norm / sqrt of squares of differences", S + "scf/scf.py"),
   ("slope distance |s1 - s2| / sqrt(e1^2 + e2^2)", S + "base_pspec2.py")],
  "sign analysis and cancellation in a canonical polynomial form of the distance terms",
  COMMON_TRUST + "Quotients are taken where the denominator is not zero.")

P("P09", "Saved analyses are restored as they were",
  "save_results writes, under the given name (with .pkl appended when missing), "
  "an object whose every attribute has the analysis's value; only the attributes "
  "holding the input data are left out, and exactly when keep_data is off. Saving "
  "leaves the analysis itself unchanged, load_results gives back what the named "
  "file holds, and Moments.from_fits reads every map and error map from the file "
  "name and extension Moments.to_fits wrote it to.",
  ["inputs", "histories", "configurations"],
  "every analysis class, any options of its constructor and main method, "
  "keep_data on and off, any file name",
  "Tests save and load a few analyses and compare one or two attributes.",
  [S + "base_statistic.py", S + "mvc/mvc.py", S + "dendrograms/dendro_stats.py", "turbustat/moments/make_moments.py"],
  [("deepcopy, drop _data, pickle.dump", S + "base_statistic.py"),
   ("to_fits/from_fits", "turbustat/moments/make_moments.py")],
  "abstract interpretation to the pickle.dump/writeto call; attribute-by-attribute equality of terms between analysis and saved object",
  COMMON_TRUST + "Assumes pickle and FITS I/O are inverse to each other.")

P("P10", "Repeating an analysis does not depend on earlier runs",
  "Calling run, distance_metric or any other public method of an analysis again "
  "gives the results that the same call gives on a freshly made analysis: "
  "settings left, arrays cached or containers filled by an earlier call with "
  "other options have no influence. Exempt are settings that a call replaces "
  "under their own name and results of optional steps that the last call did not "
  "ask for.",
  ["histories", "configurations", "inputs"],
  "every analysis and distance class, every public method, any options of the "
  "earlier and of the later call",
  "Tests make a new object for each run.",
  [S + "base_pspec2.py", S + "delta_variance/delta_variance.py", S + "wavelets/wavelet_transform.py", S + "pdf/compare_pdf.py",
   S + "dendrograms/dendro_stats.py", S + "scf/scf.py", S + "genus/genus.py", S + "pca/pca.py"],
  [("results reset at the start of each computation", S + "delta_variance/delta_variance.py")],
  "two-run dataflow comparison: gated result terms after one call and after two calls",
  COMMON_TRUST + "Containers made by the call itself are compared by their contents.")

P("P12", "Unusable option values are refused, documented ones accepted",
  "A named choice that is not among the documented ones (another spelling or "
  "case included), a lag, scale, radius, fit limit, break, frequency cut or "
  "distance without a unit or in a unit of another kind, a lag, scale or radius "
  "below one pixel or above half the image (one element of an array is enough), "
  "and data of an unsupported type are refused with an error instead of being "
  "replaced or ignored. Every documented choice and data type is accepted.",
  ["inputs", "configurations"],
  "every constructor, main method, public method, setter and function, every "
  "option listed in tsa/data/refusals.json, with all other options arbitrary",
  "Tests pass usable values, with a few pytest.raises samples.",
  [S + "base_statistic.py", S + "base_pspec2.py", S + "delta_variance/delta_variance.py", S + "wavelets/wavelet_transform.py",
   S + "tsallis/tsallis.py", S + "stat_moments/highstatmoments.py", S + "scf/scf.py", S + "pca/pca.py", S + "pca/width_estimate.py",
   S + "pdf/compare_pdf.py", S + "stats_utils.py", "turbustat/io/input_base.py",
   "turbustat/moments/make_moments.py"],
  [("raise TypeError/ValueError in setters", S + "tsallis/tsallis.py"),
   ("_to_pixel raises UnitConversionError", S + "base_statistic.py"),
   ("input_data raises TypeError", "turbustat/io/input_base.py")],
  "abstract interpretation with one option fixed to a constant or a quantity of known kind: no path may return",
  COMMON_TRUST + "The data are 64 x 80 pixel images (32-channel cubes) where a size matters; "
  "unit conversion errors are astropy's.")

P("P13", "The form in which data are passed does not change the results",
  "The same values and header give the same results whichever accepted form they "
  "come in: a FITS primary or image HDU, a tuple or list of array and header, an "
  "array with the header given apart, a spectral-cube Projection, Slice or "
  "SpectralCube; the same holds for weights and for each map of a set. The header "
  "that came with a data set stays with the analysis of that data set, in distances too.",
  ["inputs", "configurations"],
  "every analysis and distance class, each data or weights argument, every "
  "accepted form, with all other options arbitrary",
  "Tests give each analysis its data in one or two forms.",
  ["turbustat/io/input_base.py", S + "base_statistic.py", S + "genus/genus.py", S + "mvc/mvc.py", S + "pspec_bispec/pspec.py",
   S + "delta_variance/delta_variance.py", S + "stat_moments/highstatmoments.py", S + "wavelets/wavelet_transform.py",
   S + "dendrograms/dendro_stats.py", S + "vca_vcs/vca.py", S + "vca_vcs/vcs.py", S + "scf/scf.py", S + "pca/pca.py"],
  [("input_data sorts out the forms", "turbustat/io/input_base.py"),
   ("input_data_header", S + "base_statistic.py")],
  "self-composition: abstract interpretation once per form, result terms over one symbolic array and header compared",
  COMMON_TRUST + "An HDU's and a spectral-cube object's values and header are "
  "taken to be the array and header of the tuple; spectral_cube is installed.")

P("P16", "The unit in which a scale is given does not change the results",
  "A lag, scale, radius, break, fit limit, frequency cut or minimum size gives the same "
  "results whether it is given in pixels, as an angle or, where a distance is known, as "
  "a length, in whichever unit of those kinds. The conversions between pixels, angles, "
  "lengths and velocities agree with the header's pixel size and the distance, and a "
  "break that was found is reported in the kind of unit the scales are in.",
  ["inputs", "configurations"],
  "every option of a statistic or distance that takes a length, spatial frequency or area; "
  "constructors, setters, run methods and other public methods",
  "Tests convert a few lags for a few statistics and never compare arcsec with degrees or lengths.",
  [S + "base_statistic.py", S + "base_pspec2.py", S + "delta_variance/delta_variance.py", S + "scf/scf.py",
   S + "wavelets/wavelet_transform.py", S + "pca/pca.py", S + "stat_moments/highstatmoments.py", S + "genus/genus.py", S + "tsallis/tsallis.py"],
  [("_to_pixel", S + "base_statistic.py"), ("_to_pixel_freq", S + "base_statistic.py"),
   ("_physical_equiv", S + "base_statistic.py"), ("xlow, xhigh conversion", S + "scf/scf.py")],
  "self-composition over units in the abstract interpreter, conversions evaluated through the program's own equivalencies",
  COMMON_TRUST + "Pixels of half a degree, a distance of 1/32 kpc and unit ratios that are powers of two stand "
  "for all pixel sizes, distances and units.")
P("P17", "Analyses made before give the distance their data give",
  "A distance class that is given an analysis object in place of a data set, for "
  "either or both data sets and whether it has been run or not, gives the distances "
  "that it gives for the data of that analysis with the same options. An analysis "
  "made with other lags, radius or min_deltas than the distance asks for is brought to "
  "those of the distance, and the grids of the two data sets are compared all the same.",
  ["inputs", "configurations", "histories"],
  "every distance class that accepts analyses, each combination of data and analyses, "
  "common and differing grids, with all other options arbitrary",
  "Tests compare a few distances from precomputed analyses with default options.",
  [S + "delta_variance/delta_variance.py", S + "scf/scf.py", S + "stat_moments/highstatmoments.py", S + "dendrograms/dendro_stats.py",
   S + "pspec_bispec/pspec.py", S + "mvc/mvc.py", S + "vca_vcs/vca.py", S + "vca_vcs/vcs.py", S + "wavelets/wavelet_transform.py", S + "pca/pca.py"],
  [("re-runs when lags differ", S + "delta_variance/delta_variance.py"),
   ("needs_run", S + "pspec_bispec/pspec.py"),
   ("lag_check", S + "scf/scf.py")],
  "self-composition: each distance class interpreted with data and again with the analyses it made (or new ones); distance terms compared",
  COMMON_TRUST + "Grids differ by a factor 1, 2 or 0.5; images are 72 x 64 and 80 x 60 pixels; "
  "analyses that have not been run are made with the options of the distance.")
