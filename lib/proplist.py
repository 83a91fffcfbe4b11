"""The properties: single source of properties.jsonl and MANIFEST.json."""
L = "RedshiftLibrary/RedshiftLibrary/"
S = "RedshiftLibrary/src/lib/"
P = "pylibamazed/python/pylibamazed/"
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = list(observe)
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": quant},
                  "why_tests_cant": why, "anchors": a})


prop("C01", "Each spectrum runs the enabled stages in order; a failure stays contained",
     "For every configuration, processing a spectrum runs, for each spectrum model in the configured order, exactly the stages enabled for it, in the order redshift solver, sub-classification, reliability, line-measurement catalogue load, line measurement, and then the global classification, each at most once. A stage that fails is reported as that stage's error of the failing model with the failure's own error code; it stops only the stages of that model that depend on it, which are reported as not run because of that failure, and every other model and stage runs as if nothing had failed. A failure to read or initialise the spectrum is recorded as the initialisation error and no stage runs; when every model's redshift solver failed the classification is reported as not done.",
     ["configurations", "fault_sequences"],
     "every combination of spectrum models, enabled stages and methods, and every placement of stage failures",
     "the tests run a handful of configurations on the happy path and two or three single failures; the product of configurations and failing stages is never walked",
     [P + "ProcessFlow.py", P + "Parameters.py", P + "Exception.py"],
     [("stage loop and error recording", P + "ProcessFlow.py"),
      ("stage enabling predicates", P + "Parameters.py")],
     [("errors", "stage -> recorded error"), ("stages run", "sequence of (model, stage)")])

prop("C02", "Consecutive spectra do not influence each other",
     "The results, errors and warnings obtained for a spectrum depend only on that spectrum, the configuration and the calibration, never on which spectra were processed before it in the same process nor on whether they succeeded or failed at any stage.",
     ["histories", "fault_sequences"],
     "every sequence of spectra, with a failure at any stage of any of them",
     "tests process one spectrum per process state and never one after a failed one",
     [P + "ProcessFlow.py", S + "processflow/context.cpp", S + "processflow/inputcontext.cpp",
      S + "processflow/resultstore.cpp", L + "common/flag.h"],
     [("reset between spectra", S + "processflow/context.cpp"),
      ("warning flag reset", S + "common/flag.cpp")])

prop("C03", "Processing scopes stay well formed and close on every exit",
     "At every moment the open processing scopes form a stack in which each of the spectrum-model, stage and method kinds occurs at most once, a spectrum model is opened before its stage, and a method directly inside its stage. A request that would break this is refused with a scope error and changes nothing, and the level, value and kind queries always describe exactly the scopes currently open. A scope opened for a block of code is closed, and the enclosing scopes exactly restored, whether the block ends normally or by an exception.",
     ["histories", "fault_sequences"],
     "every sequence of opening and closing scopes, explicit or block-scoped, with exceptions at any point",
     "tests open a few fixed sequences; the rules must hold after every history of pushes, pops, refusals and exceptions",
     [L + "processflow/scopestack.h", S + "processflow/scopestack.cpp", S + "processflow/autoscope.cpp"],
     [("type rules", S + "processflow/scopestack.cpp"), ("guard destructor", S + "processflow/autoscope.cpp")],
     [("stack", "names and kinds of the open scopes")])

prop("C04", "A stored result is found under exactly the scope and name it was stored with",
     "A result stored for a spectrum model, stage and method (or globally, or for one template) is returned unchanged by every lookup with that scope and name, and by no other; storing a second result under a scope and name already taken is refused and leaves the first in place. Lookups of absent results fail with an error, existence queries and result-type queries agree with the lookups, and clearing the store removes everything.",
     ["histories"],
     "every interleaving of stores, lookups, existence queries and clears over models, stages, methods and names",
     "tests store one or two results and read them back; key confusion needs several scopes and names at once",
     [L + "processflow/resultstore.h", S + "processflow/resultstore.cpp", S + "processflow/scopestore.cpp"],
     [("scoped keys", S + "processflow/scopestore.cpp"), ("per-template and global maps", S + "processflow/resultstore.cpp")],
     [("store", "(scope, name) -> result")])

prop("C05", "The warning mask is exactly the set of warnings raised since the last reset",
     "After any sequence of warnings and resets the warning bit mask has exactly the bits of the codes raised since the last reset, each set once however often it was raised. The message list holds one entry per raised warning, in order, with its code and text, and both are emptied by a reset.",
     ["histories"],
     "every sequence of warnings (any code, any repetition) and resets",
     "tests raise one or two warnings",
     [L + "common/flag.h", S + "common/flag.cpp"],
     [("bit set", S + "common/flag.cpp")],
     [("flags", "set of raised codes"), ("messages", "raised warnings in order")])

prop("C06", "Every solver run leaves its warnings stored and its scopes closed",
     "Whenever a stage solver is run, its warnings are stored under its model, stage and method, the warning state is reset afterwards so that no later stage inherits it, and the processing scopes are exactly those open before, whether the solver succeeds, throws a library error or any other exception. A successful solver's result is stored under that model, stage and method; a throwing one stores no result and its error reaches the caller unchanged.",
     ["histories", "fault_sequences"],
     "every sequence of solver runs over models, stages and methods, with warnings raised and exceptions thrown at any of its steps",
     "tests run successful solvers, one at a time",
     [S + "method/solve.cpp", S + "method/objectSolve.cpp", L + "method/solve.h"],
     [("save of flags on every exit", S + "method/solve.cpp"), ("scope guards", S + "method/objectSolve.cpp")])

prop("C07", "Parameter checking accepts exactly the coherent configurations",
     "For every configuration, the parameter check accepts it if and only if every parameter required by the choices made elsewhere in it is present and the forbidden combinations are absent; otherwise it is refused with the invalid-parameter-file error, whose message names a parameter that is really missing or a combination that is really present. A parameter that the other choices make meaningless does not cause a refusal: each one is reported as an unused-parameter warning, and no other parameter is. The checked configuration is not modified.",
     ["configurations"],
     "every combination of conditional choices (methods, continuum component and reestimation, fitting method, line-ratio type, photometry, line spread function, reliability, template combination...) and every missing or superfluous dependent parameter",
     "tests exercise each rule once or twice from one base configuration; interactions between choices are not covered",
     [P + "ParametersChecker.py", P + "ParametersAccessor.py", P + "FilterLoader.py"],
     [("dependency and combination rules", P + "ParametersChecker.py"),
      ("conditions on which parameters depend", P + "ParametersAccessor.py")])

prop("C08", "Normalising a configuration keeps its meaning, whatever its schema version",
     "A configuration written in schema version 1 or 2 is converted to the same internal parameters: every parameter arrives under its current name and place with the value the user gave. Normalisation then changes only parameters that the other choices make meaningless, which take their documented neutral value, and adds the neutral default of absent sections; every other parameter keeps its value. The configuration given by the caller is not modified, and the results of different calls share no state: changing one never changes another, nor what later calls return.",
     ["configurations", "histories"],
     "every configuration shape (set of models, present or absent sections), both schema versions, and every sequence of configurations normalised and edited in one process",
     "tests normalise one configuration per test",
     [P + "ParametersExtender.py", P + "ParametersConverter.py", P + "Parameters.py", "pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv"],
     [("default extension", P + "ParametersExtender.py"), ("version conversion", P + "ParametersConverter.py")])

prop("C09", "Parameter lookups read exactly the named scope, derived facts follow them",
     "Looking up a parameter by its full name, from the current scope, or from the enclosing scope given by its depth or kind returns the value defined under exactly that name, readable as the requested type, and fails with a missing-parameter error when there is none; only lists looked up from the current scope fall back to the unscoped name. The presence queries say exactly which names are defined, and lookups never modify the parameters. What the library derives from a configuration (whether a spectrum model needs dust or intergalactic extinction, FFT processing, orthogonal templates or log-rebinning, and the finest redshift step of the FFT models) is what that model's own method and parameters say.",
     ["configurations", "histories"],
     "every tree of parameters, every scope from which they are read, and every combination of methods and their extinction, FFT and continuum parameters over several models",
     "tests look up a few parameters from one scope",
     [L + "processflow/parameterstore.h", S + "processflow/parameterstore.cpp", L + "processflow/scopestore.h", S + "processflow/scopestore.cpp"],
     [("scoped lookup", L + "processflow/parameterstore.h"), ("derived facts", S + "processflow/parameterstore.cpp")])

prop("C10", "A loaded spectrum is exactly the input, filtered and ordered consistently",
     "Whatever order a reader supplies wavelengths, fluxes, errors, other columns and line-spread functions for its observations, initialisation either hands every observation's samples to processing with flux, error and extra columns still attached to their own wavelength and sorted by wavelength, or refuses with an error. Missing columns, columns of different lengths, observations that do not match between columns or the configuration, unsorted wavelengths, empty data, an unknown air-vacuum conversion or a missing line-spread function are refused; a range wider than the data, an ignored conversion and an arbitrary choice of line-spread function are reported as warnings. In merged multi-observation mode the samples of all observations are kept exactly once, sorted; nothing can be read before initialisation.",
     ["inputs", "histories"],
     "every set of observations, column contents and load order, filter set and multi-observation mode",
     "tests load a few hand-written spectra",
     [P + "AbstractSpectrumReader.py", P + "Container.py", P + "Filter.py"],
     [("consistency checks and merge", P + "AbstractSpectrumReader.py")])

prop("C11", "Filters keep exactly the samples every rule accepts",
     "For every set of filter rules and every sample, the sample is kept if and only if every rule accepts the sample's value in the rule's column, whichever comparison or bit-mask instruction it uses. Rules are applied to all columns alike so that columns stay aligned, the mandatory columns can be named as in the parameter file or as in the reader, and an unknown column or instruction is refused with its specific error.",
     ["inputs", "configurations"],
     "every rule list over every instruction and column, and every sample array",
     "tests apply one or two rules to one array",
     [P + "Filter.py", P + "FilterLoader.py"],
     [("instruction table and composition", P + "Filter.py")])

prop("C12", "Only valid samples reach the solvers",
     "Validation of a spectrum over a wavelength range accepts it if and only if the range contains finite, not all zero fluxes and finite, strictly positive noise for every sample in it. Both borders belong to the range. Automatic correction changes exactly the invalid samples of the range, gives them the smallest valid absolute flux of the range divided by the coefficient and its largest valid noise multiplied by it, and leaves a spectrum whose noise then passes validation; with no valid sample in the range it is refused. A range that does not meet the spectrum, and a line-spread function that does not cover the range, are refused.",
     ["inputs"],
     "every spectrum (NaN, infinite, zero and negative samples at any position) and every range, including borders",
     "tests place a few bad samples in the middle of the range",
     [S + "spectrum/spectrum.cpp", S + "spectrum/fluxaxis.cpp", S + "spectrum/noiseaxis.cpp"],
     [("validation and correction loops", S + "spectrum/spectrum.cpp"), ("invalid-sample correction", S + "spectrum/fluxaxis.cpp")])

prop("C13", "A wavelength grid's derived facts never go stale",
     "After any sequence of operations on a wavelength grid, its answers to whether it is sorted and whether it is logarithmically sampled (and with which step), its range, its resolution, its range mask and its index searches describe the wavelengths it holds now. Index search returns the documented neighbour for every value inside, at the borders of, or outside the grid.",
     ["histories", "inputs"],
     "every sequence of constructions, copies, assignments, element changes, shifts, offsets, extractions and resizes, then every query",
     "tests query a freshly built grid",
     [L + "spectrum/spectralaxis.h", S + "spectrum/spectralaxis.cpp", S + "spectrum/axis.cpp"],
     [("cached flags", S + "spectrum/spectralaxis.cpp")])

prop("C14", "Raw, continuum and continuum-free flux always describe one spectrum",
     "After any sequence of operations on a spectrum, its raw flux equals its continuum plus its continuum-free flux at every sample, the flux it exposes is the component currently selected, and continuum estimates are those of the current raw flux and settings. Copies, moves and assignments yield a spectrum indistinguishable from the original in every observable part, and independent of it afterwards.",
     ["histories"],
     "every sequence of component selection, flux and error updates, continuum removal, inversion, scaling, copy, move, assignment, extraction and rebinning",
     "tests check single operations on fresh spectra",
     [L + "spectrum/spectrum.h", S + "spectrum/spectrum.cpp"],
     [("component caches", S + "spectrum/spectrum.cpp")])

prop("C15", "The template catalogue's views stay aligned",
     "After any sequence of additions, replacements and clearings over its four views (original or orthogonal, linear or logarithmic sampling), the catalogue returns for every category and index the template stored there and nothing else, template counts and names agree with it, and the orthogonal or resampled view of a template never outlives the original it was derived from. Adding an unnamed template is refused.",
     ["histories"],
     "every sequence of add, set, clear and selection over categories, indices and views",
     "tests add a few templates to one view",
     [L + "spectrum/template/catalog.h", S + "spectrum/template/catalog.cpp"],
     [("four-view store and cascaded clearing", S + "spectrum/template/catalog.cpp")])

prop("C16", "Line catalogues hold exactly the lines and ratios they were given",
     "A line catalogue holds one line per identifier, with exactly the fields it was last given; bad types, forces and profiles are refused without changing it. Filtering by type and force returns exactly the lines of that type and force and grouping puts each line in exactly one group, with all and only the lines of its group name (ungrouped lines alone). Ratio catalogues are copies independent of the catalogue they are made from and of each other: an amplitude, asymmetry, velocity, prior or extinction index set in one is read back there and nowhere else. Loading the files gives one line per row and one ratio per row of the matching line (same name, type and rounded position), equal priors adding to one over catalogues and extinction settings, and refuses duplicated lines and ratios of unknown lines. The best ratio catalogue of a set of fitted amplitudes is the one with the least weighted squares, with its amplitudes scaled accordingly.",
     ["histories", "inputs"],
     "every sequence of additions, changes, copies and filters; every catalogue file; every set of fitted amplitudes",
     "tests use small fixed catalogues",
     [L + "line/catalog.h", S + "line/catalog.cpp", S + "line/line.cpp", S + "line/lineRatioCatalog.cpp", S + "line/catalogsTplRatio.cpp",
      "pylibamazed/python/pylibamazed/CalibrationLibrary.py"],
     [("line map, filters, groups", S + "line/catalog.cpp"), ("copies with their own ratios", S + "line/lineRatioCatalog.cpp"),
      ("catalogue files", "pylibamazed/python/pylibamazed/CalibrationLibrary.py")])

prop("C17", "A template's extinction state is what the last settings say",
     "After any sequence of applying and resetting dust and intergalactic extinction over any wavelength sub-ranges and settings, the template's flux in the active range equals its unextinguished flux times the dust correction of the last dust setting times the intergalactic correction of the last redshift and setting, independently of the settings tried before. The reported settings are those last applied, and resetting restores the unextinguished flux.",
     ["histories"],
     "every sequence of dust settings, intergalactic settings, redshifts, sub-ranges, scalings and copies",
     "tests apply one or two settings to a fresh template",
     [L + "spectrum/template/template.h", S + "spectrum/template/template.cpp"],
     [("incremental extinction products", S + "spectrum/template/template.cpp")])

prop("C18", "Redshift grids stay sorted, unique and inside their bounds",
     "Any redshift grid built from a range, step and sampling mode is strictly increasing, starts at the range's lower bound (or, when a centre is given, contains the centre), stays inside the range and is complete (neighbours are one step apart and less than one step is missing at the borders). Inserting a second-pass sub-grid around a candidate yields a grid that is again strictly increasing and inside its former bounds, contains every point of the sub-grid that lies inside the range, keeps every point outside the window of the sub-grid, and reports exactly the position where the sub-grid was inserted and how many points it replaced; the per-redshift results already computed stay attached to their redshifts.",
     ["inputs", "histories"],
     "every range, step, sampling mode, candidate position (including borders and overlapping windows)",
     "tests build a few grids with comfortable candidates",
     [L + "common/zgridparam.h", S + "common/zgridparam.cpp"],
     [("grid building and sub-grid insertion", S + "common/zgridparam.cpp")])

prop("C19", "Peak search returns exactly the local extrema it is asked for",
     "For every sampled curve and search range, the peak search returns local maxima of the curve in the range only, including plateaus and admissible borders, never two at the same position, at most the requested number and in decreasing value order. No kept peak is within the requested separation of a higher one, and the highest local maximum is always among them.",
     ["inputs"],
     "every curve shape over a small value set (plateaus, ties, monotone, borders), range, count and separation",
     "tests use smooth curves and a few plateaus",
     [L + "extremum/extremum.h", S + "extremum/extremum.cpp"],
     [("peak scan, separation and meritcut filters", S + "extremum/extremum.cpp")])

prop("C20", "Redshift candidates are ranked, unique and integrated over disjoint windows",
     "For every PDF and set of candidate redshifts, the returned candidates are distinct, each keeps its own identity, and their ranks follow decreasing integrated probability. Of candidates whose windows largely overlap only the most probable is integrated (the others rank last with no probability). The integration windows are inside the redshift range, contain their candidate, are no larger than its uncertainty asks for and do not overlap (up to the grid interval in which they meet), the integrated probability is the integral of the PDF over the window, and no more candidates than requested are returned.",
     ["inputs", "histories"],
     "every set of candidates (duplicates, close pairs, borders), PDF and count",
     "tests use well separated candidates",
     [L + "statistics/pdfcandidatesz.h", S + "statistics/pdfcandidatesz.cpp", S + "operator/pdfz.cpp"],
     [("window trimming and ranking", S + "statistics/pdfcandidatesz.cpp")])

prop("C21", "Range algebra and index search agree with the mathematical definitions",
     "For all closed ranges with ordered borders, intersection, union of overlapping ranges, merging a list of ranges, comparison, shifting and scaling by a non-negative factor, clamping, and spreading points by a step forwards or backwards give the mathematically defined answer, including at equal borders, empty intersections and single points; where two ranges do not meet, false is returned and the result is untouched. Over sorted non-empty vectors, the closed and enclosing index intervals and the exact, lower, upper and closest index searches return the defined index; where none exists an error or false is returned, never an index outside the vector.",
     ["inputs", "histories"],
     "all ranges and sorted vectors over a small domain, for integer and floating-point ranges",
     "tests sample a few ranges",
     [L + "common/range.h", L + "common/indexing.h"],
     [("range and index templates", L + "common/range.h")])

prop("C22", "Regularising a multi-resolution PDF keeps its grid and values aligned",
     "For every coarse redshift grid with refined windows, a PDF result has one value per redshift of the merged grid, in order; values of another length are refused. Conversion to the regular coarse or fine grid keeps the first redshift, the last one when it lies on the grid, the step, the value at every shared redshift and linear interpolation elsewhere; it is refused, changing nothing, when the windows have different steps, and does nothing when already regular. Extending the right border keeps all values and repeats the last one. A PDF is declared valid only if it has two points, is not flat, has no undefined value and its trapezoidal integral is within 10% of one.",
     ["inputs", "histories"],
     "every number, place and step of refined windows, linear and logarithmic sampling, sequences of conversions and extensions",
     "tests use one or two windows",
     [S + "operator/logZPdfResult.cpp", S + "common/zgridparam.cpp"],
     [("grid conversion", S + "operator/logZPdfResult.cpp")])

prop("C23", "Line matching finds exactly the redshifts that explain enough lines",
     "For every list of detected and reference lines, the matching returns, without duplicates, exactly the sets that start from one pair of a detected and a reference line with a redshift not negative and give every other detected position the first reference line that agrees with that redshift within the tolerance, provided they have the required number of lines and a mean redshift strictly inside the range; type and force filters apply first, a single reference line explains one detected line at a time. The best solution has the most strong emission lines, then the most lines; counts and mean redshifts are those of its pairs. The rules discard exactly the solutions with a line of a known couple ([OIII]b without [OIII]a, Hbeta without Halpha) whose companion would be seen inside the spectrum, or with weak lines only where a strong line inside the spectrum is hidden by neither noise nor weakness, and report which rule failed.",
     ["inputs", "histories"],
     "every small list of detected and reference lines with filters, tolerance, range and minimum number, spectra and windows for the rules",
     "tests match a few handmade line lists and never apply the rules",
     [S + "operator/linematching.cpp", S + "operator/linematchingresult.cpp", S + "line/rules.cpp"],
     [("pair search", S + "operator/linematching.cpp"), ("rules", S + "line/rules.cpp")])

prop("C24", "Peak detection returns exactly the runs above the local noise threshold",
     "For every flux, wavelength grid and setting, the detected peaks are exactly the maximal contiguous runs of samples above the median plus half the cut times the median absolute deviation (plus offset) of the window around them, in order, except those culminating at the border of the spectrum; each is enlarged by the configured multiple of its width without leaving the spectrum or passing its neighbours. The median is the middle value (mean of the two middle ones) for every number of samples, and a peak's signal to noise ratio is its height above the median of the unmasked samples in its window over the larger of their deviation and mean error. No setting makes the detection crash.",
     ["inputs", "configurations"],
     "every flux shape over a small value set, grid, window, cut, smoothing and enlargement",
     "tests use a few synthetic fluxes with the default window",
     [S + "operator/peakdetection.cpp", S + "operator/linedetection.cpp", L + "common/median.hpp"],
     [("run scan, threshold and enlargement", S + "operator/peakdetection.cpp"), ("signal to noise ratio", S + "operator/linedetection.cpp")])

prop("C25", "The classification is the most probable processed model",
     "Whatever models are configured, with or without a redshift solver, and whichever produced a redshift result in whatever order, the reported class is one with the largest evidence among those that produced a result, the reported probabilities are the normalised evidences of those models and sum to one, models without a result have a null probability and evidence, and results of other stages or methods do not count. When no model has a result or all evidences are null, the classification fails with an error and stores no class.",
     ["inputs", "configurations"],
     "every set of models with or without solvers and results and every evidence vector (ties, null, very large or very small)",
     "tests classify one pair of evidences",
     [S + "method/classificationsolve.cpp"],
     [("evidence comparison", S + "method/classificationsolve.cpp")])

prop("C26", "Line amplitude rules only move amplitudes to the allowed side",
     "After an amplitude rule is applied to any set of fitted line elements, observed in one or several spectra, the relation that it enforces holds: no weak line in range exceeds the amplitude plus error of the weakest strong line of its type (computed before the rule), the second of two single lines does not exceed its fraction of the first, the ratio of a doublet stays within its range. Lines of an element keep their nominal proportions, amplitudes are only lowered (or brought to zero) except in ratio corrections, errors are unchanged, other elements, lines of other types, unfitted lines and lines outside every wavelength range are untouched, absorption never exceeds its limit, and applying the rule again changes nothing. Disabled rules, and the rule option 'no', change nothing; the named rules are applied, in their fixed order.",
     ["inputs", "histories"],
     "every set of amplitudes, errors, enabled rules and lines in or out of range",
     "tests check one rule on one model",
     [S + "line/regulament.cpp", S + "line/rule.cpp", S + "line/ruleStrongHigherThanWeak.cpp", S + "line/ruleOIIRatioRange.cpp", S + "line/rule2singlelinesamplitude.cpp"],
     [("rule corrections", S + "line/rule2singlelinesamplitude.cpp")])

prop("C27", "Every log record reaches exactly the handlers whose level admits it",
     "A handler is registered from its construction to its destruction (at most eight at once; further ones receive nothing). After any history of constructions, destructions, level changes and messages of any level, every message is delivered once, in order and intact, with its time stamp if asked, to each registered handler whose level admits it and to no other. Messages sent by several threads at once all arrive, each intact and those of one thread in order.",
     ["histories", "schedules"],
     "every history of handler constructions, destructions, level changes and messages, from one or several threads",
     "tests log to one handler",
     [L + "log/log.h", S + "log/log.cpp", S + "log/handler.cpp"],
     [("handler table", S + "log/log.cpp")])

prop("C28", "The written output reports exactly what was computed",
     "For every combination of computed results and recorded errors, the loaded output and the HDF5 file contain each attribute of the result table that was computed (extended ones only on request, first-pass ones only when a second pass was run), with its value, under its name, model, dataset, observation and candidate rank, and no other; results of one model are never reported under another. A failed stage is reported with its error code and message, and so is each enabled stage that could not run because of it; after a failed initialisation only spectrum-level data is written. Asking for an attribute that was not computed is an error or reported as absent; listings, sizes and values agree with what was loaded.",
     ["configurations", "fault_sequences"],
     "every combination of models, observations, bands, stages, result tables, stored results, stage errors and queries",
     "tests compare a few complete outputs",
     [P + "AbstractOutput.py", P + "ResultStoreOutput.py", P + "H5Writer.py", P + "OutputSpecifications.py"],
     [("loading by level, attribute lookup by name, error records", P + "AbstractOutput.py"),
      ("values and errors taken from the result store", P + "ResultStoreOutput.py"),
      ("groups, attributes and tables of the file", P + "H5Writer.py")])

prop("C29", "Sample masks combine as sets",
     "Every mask operation is the corresponding set operation on sample positions: intersection, counting, resizing and overlap fractions give the set-theoretic result and change only the mask they are called on. Masks of different sizes are never combined: nothing changes and the call reports it (false, -1, or an error for vectors and axes). A wavelength range selects exactly the samples inside it; the elements, the weighted mean and the weighted standard deviation over a mask or a range are those of the selected samples, and a range that is not inside the spectrum is refused.",
     ["histories", "inputs"],
     "all pairs of masks of small sizes and all operation sequences",
     "tests use a few masks",
     [L + "common/mask.h", S + "common/mask.cpp", S + "spectrum/spectralaxis.cpp", S + "spectrum/axis.cpp", S + "spectrum/fluxaxis.cpp", S + "spectrum/spectrum.cpp"],
     [("mask operators", S + "common/mask.cpp"), ("range masks and masked fractions", S + "spectrum/spectralaxis.cpp"),
      ("statistics over a mask", S + "spectrum/fluxaxis.cpp")])

prop("C30", "Template fits minimise the chi-square over dust and IGM extinctions",
     "For every spectrum (or set of spectra), template, redshift grid and choice of extinctions, the fit of a template, or of a linear combination of templates, returns at each redshift the smallest noise-weighted squared residual over the extinctions allowed (those asked for, at redshifts where the IGM has samples to act on), over exactly the unmasked samples in the fitted range, with an amplitude, errors, signal-to-noise ratio and extinction indices that achieve it; positivity of the amplitude is honoured when asked for. The direct and the FFT computations give the same chi-squares on log-sampled data. The model spectrum returned for a fit is the template with that extinction at that redshift times the amplitude, sampled on the observed wavelengths. A redshift where the template does not cover enough of the spectrum is refused, and no fit changes what a later one returns.",
     ["histories", "inputs"],
     "every spectrum and template on small integer grids, every redshift, extinction choice, mask and overlap threshold, and every sequence of fits on one operator",
     "tests compare a few fits with values recorded from an earlier version of the code",
     [S + "operator/templatefitting.cpp", S + "operator/templatefittinglog.cpp", S + "operator/tplcombination.cpp", S + "operator/templatefittingBase.cpp"],
     [("chi-square and extinction loops", S + "operator/templatefitting.cpp"), ("FFT products", S + "operator/templatefittinglog.cpp"),
      ("linear combinations", S + "operator/tplcombination.cpp")])

prop("C31", "Rebinning interpolates the current curve, inside the range only",
     "Rebinning a spectrum or template onto any increasing grid gives, at every grid position inside the requested range (borders included), the chosen interpolation of the curve as it is now (selected component, extinction, latest axes and settings, whatever was rebinned or changed before): linear, nearest sample, natural cubic spline, or that spline at the nearest point of the 0.1 angstrom grid. Exactly these positions are marked valid; elsewhere the flux is zero and a requested error infinite. Requested errors are interpolated like the flux, or as variances scaled by the ratio of the steps; asking for them where they are not available, a range outside the curve or an unknown interpolation is refused, and the source is never changed.",
     ["inputs", "histories"],
     "every curve, grid, range, interpolation and error option, and every history of changes and rebinnings of one spectrum",
     "tests rebin a few fixed curves once",
     [S + "spectrum/rebin/rebin.cpp", S + "spectrum/rebin/rebinLinear.cpp", S + "spectrum/rebin/rebinNgp.cpp", S + "spectrum/rebin/rebinSpline.cpp", S + "spectrum/rebin/rebinFineGrid.cpp", S + "spectrum/spectrum.cpp"],
     [("interpolators and their cache", S + "spectrum/rebin/rebinFineGrid.cpp"), ("samples in and out of the range", S + "spectrum/rebin/rebin.cpp"),
      ("invalidation on change", S + "spectrum/spectrum.cpp")])

prop("C32", "The line model is the continuum plus each fitted line, on its supports",
     "At every redshift, each line inside the wavelength range (at least a third of its window) is active on its window of samples; the supports of the lines of one element are disjoint, cover exactly those windows, and every sample counts once. The model spectrum is the current continuum plus, on each support, the sum of the profiles of the lines sharing it times their amplitudes (absorption lines multiply the continuum, lines out of range or with unset or negative amplitudes add nothing), plus the enabled amplitude offsets, once per sample; refreshing some elements or one line leaves other samples unchanged. The amplitude of an element is the non-negative weighted projection of the continuum-subtracted flux on its lines, over all the spectra, capped at one for absorptions, unset where nothing can be fitted. Residuals, direct integrals, velocity groups, overlap lists and the observed flux without lines follow from that same state, with the error of the observed spectra.",
     ["inputs", "histories"],
     "every set of lines and grouping, spectra, continuum component, redshift and history of amplitudes, refreshes and queries",
     "tests fit a few lines of fixed catalogs on one spectrum and look at some totals; overlaps, borders, stale states and several spectra are not sampled",
     [S + "linemodel/element.cpp", S + "linemodel/elementlist.cpp", S + "linemodel/lmeltlistvector.cpp", S + "linemodel/spectrummodel.cpp", S + "linemodel/abstractfitter.cpp", S + "linemodel/individualfitter.cpp", S + "linemodel/elementparam.cpp"],
     [("supports and overlaps", S + "linemodel/element.cpp"), ("model spectrum", S + "linemodel/spectrummodel.cpp"),
      ("fit of an amplitude", S + "linemodel/abstractfitter.cpp"), ("groups and queries", S + "linemodel/elementlist.cpp")])

NOT_APPLICABLE_PROPS = []


def na(id, title, statement, over, quant, why, files, mech, reason):
    prop(id, title, statement, over, quant, why, files, mech)
    NOT_APPLICABLE_PROPS.append((id, reason))


na("N01", "Line profiles integrate to their analytic flux",
   "Every line profile's flux over its support equals the analytic integral of its shape within numerical tolerance.",
   ["inputs"], "all profile parameters",
   "tests compare a few values",
   [S + "line/lineprofileSYM.cpp"], [("profile formulas", S + "line/lineprofileSYM.cpp")],
   "numerical accuracy of transcendental formulas: TLA+ has neither reals nor exp/erf, so a specification could only restate sampled numbers")
na("N02", "The marginalised PDF is normalised",
   "The redshift PDF combined from any set of model likelihoods and priors integrates to one within tolerance.",
   ["inputs"], "all likelihoods and priors",
   "tests use a few chi-square curves",
   [S + "operator/pdfz.cpp"], [("log-sum-exp", S + "operator/pdfz.cpp")],
   "a numeric identity of log-sum-exp and trapezoidal integration in floating point, outside TLA+ integer arithmetic")
na("N03", "Line fits minimise the chi-square",
   "The amplitudes, offsets and velocities returned by line fitting minimise the noise-weighted squared residual over the samples under the lines.",
   ["inputs"], "all spectra and lines",
   "tests fit a few spectra",
   [S + "linemodel/svdfitter.cpp", S + "linemodel/hybridfitter.cpp"], [("least-squares solution", S + "linemodel/svdfitter.cpp")],
   "line profiles are Gaussian: optimality over them is a numeric accuracy question TLA+ cannot express")
