#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to review and edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "Cut fields never share or leak flag bits",
     "After any sequence of registering and unregistering boolean and categorical cuts, every registered cut (names up to 64 bytes) owns a non-empty set of flag bits that no other registered cut owns, each name is registered at most once among the boolean cuts and at most once among the categorical cuts, and the bits marked as used are exactly the bits that are owned. Registering new cuts changes nothing that existing cuts own (re-registering an existing name is a no-op); unregistering frees exactly the bits of the named cuts and leaves the rest; a request that is refused (unknown name, no free bit) changes nothing.",
     ["histories", "inputs"],
     "all interleavings of register/unregister calls for boolean and categorical cuts, any names, any number of categories that fits in 32 bits",
     "Tests register a handful of cuts in one fixed order; bit collisions only appear after particular register/unregister histories or with repeated names.",
     ["mass/core/cut.py"],
     [("lowest free bit allocation", "CutFieldMixin.register_boolean_cut_fields / register_categorical_cut_field"),
      ("bit release", "CutFieldMixin.unregister_boolean_cut_fields / unregister_categorical_cut_field")],
     [("cut_used_bit_flags", "bit set iff owned by a registered field", "hdf5_file.attrs"),
      ("boolean_cut_desc", "32 rows (name, 1<<row) or empty", "hdf5_file.attrs"),
      ("categorical_cut_desc", "rows (name, mask)", "hdf5_file.attrs")],
     ["boolean_cut_desc", "categorical_cut_desc", "cut_category_list", "cut_used_bit_flags"])

prop("C02", "Boolean cuts touch exactly the requested pulses and cut",
     "Applying a boolean cut marks exactly the requested pulses, in that cut only; clearing named cuts (or all boolean cuts) unmarks every pulse in exactly those cuts; no other boolean or categorical information of any pulse ever changes. A pulse is reported good for a set of cuts (default: all) exactly when none of those cuts has been applied to it, bad is exactly the complement, and a range cut (lo, hi) marks exactly the pulses whose value is <= lo or >= hi, a missing limit imposing nothing. A newly registered cut is unset on every pulse, even when it takes over a bit of a cut that was unregistered.",
     ["histories", "inputs"],
     "all pulse counts, masks, values, cut names/numbers, limits, and all orders of cut/clear/query operations",
     "Existing tests apply a few cuts to a few pulses; interference between cuts depends on which bits are set in which order.",
     ["mass/core/cut.py"],
     [("OR-in / AND-out of one bit mask", "Cuts.cut, Cuts.clear_cut"), ("mask intersection", "Cuts.good, Cuts.bad, Cuts._boolean_fields_bit_mask"),
      ("range cut", "Cuts.cut_parameter")],
     [("_mask", "one uint32 per pulse", "Cuts")], ["good()", "bad()", "cut_mask()"])

prop("C03", "Categorical labels select exactly the pulses given them",
     "After labelling pulses of a categorical cut, selecting a label returns exactly the pulses that were given that label (unlabelled pulses are in the default category), reading back the category numbers returns the stored numbers, and combining several categorical criteria is their intersection; every label of one cut has its own number. Conflicting labels for a pulse are refused with nothing changed, and labelling one cut never disturbs any other boolean or categorical cut.",
     ["histories", "inputs"],
     "all category lists (any number of labels, duplicates, any default), any free-bit layout (including non-contiguous bits), all pulse labelings",
     "Tests use two or three categories in contiguous bits; round-trip errors need wide fields, fragmented bit allocation or relabelling.",
     ["mass/core/cut.py", "mass/core/channel.py"],
     [("code assignment", "CutFieldMixin.register_categorical_cut_field"), ("store", "Cuts.cut, Cuts.cut_categorical"), ("load", "Cuts.category_codes, Cuts.select_category")],
     [("cut_category_list", "rows (field, label, code)", "hdf5_file.attrs")], ["category_codes()", "select_category()", "good(field=label)"])

prop("C04", "LJH files: every record read is the record stored",
     "For any well-formed LJH file (version 2.1 or 2.2) the reported number of records is the number of complete records after the header (a truncated last record is ignored), and for every index the samples, subframe count and arrival time returned are the ones stored in that record, samples being bit-inverted exactly when inversion is requested. The pretrigger count, record length, sample period and subframe layout are those implied by the header, and splitting the file into segments of any allowed size covers every record exactly once in order.",
     ["inputs", "configurations"],
     "all header values, record counts, record lengths, segment sizes, both file versions, truncated files, inverted or not",
     "Tests read two fixed regression files; offsets and time decoding depend on header length, version, source type and file length.",
     ["mass/core/files.py"],
     [("header parse", "read_ljh_header, LJHFile._parse_header"), ("record layout", "LJHFile2_1/LJHFile2_2 dtype, pulse_size_bytes, _open_mm"),
      ("time decode", "LJHFile2_1._parse_times, LJHFile2_2.datatimes_*"), ("segmentation", "LJHFile.set_segment_size")],
     [("header_size", "byte offset of first record", "LJHFile")], ["alldata", "__getitem__", "read_trace_with_timing", "nPulses"])

prop("C05", "Copying, appending or truncating LJH files preserves the records",
     "Copying selected traces, appending traces to a file, truncating a file (by count or by time) and rewriting a file through a callback produce a readable LJH file that holds exactly the requested records, in the requested order, with samples, subframe counts and times (to the microsecond) unchanged (samples being the callback's result when rewriting), and with the same record length, pretrigger length, sample period and subframe layout as the input; the input file is never modified.",
     ["inputs"],
     "all input files, index lists (repeats, any order, empty), record counts, truncation counts and times",
     "The tests truncate one fixed file at a few counts and never re-read header fields of copies.",
     ["mass/core/ljh_modify.py", "mass/core/files.py"],
     [("record writer", "helper_write_pulse, ljh_truncate"), ("header writer", "make_ljh_header")], [], ["output file bytes"])

prop("C06", "OFF files: each record and model is read from its own place",
     "For any OFF file (versions 0.1.0, 0.2.0, 0.3.0, any number of basis vectors) every record field, coefficient, projector and basis element read is the stored one; named coefficients and the coefficient array are two views of the same numbers; the modelled pulse of a record is the basis applied to all its coefficients and its sample times are spaced by the frame period with time zero at the trigger sample. The record count is the number of complete records, also after the file has grown and been refreshed.",
     ["inputs", "histories"],
     "all versions, basis counts >= 3, header lengths, record counts, growth histories",
     "Tests read one file of one version with one basis count.",
     ["mass/off/off.py"],
     [("record dtype", "recordDtype"), ("model offsets", "OffFile._decodeModelInfo*"), ("record map", "OffFile._updateMmap")],
     [("afterHeaderPos", "byte offset of first record", "OffFile")], ["OffFile.__getitem__", "recordXY", "projectors", "basis"])

prop("C07", "LJH to OFF conversion keeps every record, independent of chunking",
     "Converting one or more LJH files yields an OFF file with one record per input record, in order, whose coefficients are the projectors applied to that record's samples, whose pretrigger mean and residual are those of that record, and whose frame count and time (to within a microsecond) are those of that record. The result does not depend on how the conversion is divided into chunks.",
     ["inputs", "configurations"],
     "all record counts, chunk sizes, projector/basis sizes, file lists",
     "Tests convert small files that fit in one chunk and compare a few values.",
     ["mass/core/ljh2off.py"],
     [("chunk loop", "ljh_records_to_off"), ("file loop", "multi_ljh2off")], [], ["output OFF records"])

prop("C08", "Experiment states: each record belongs to the state active at its time",
     "A record belongs to a state label (after renaming) exactly when the last state change not later than the record's time carries that label and the label is not excluded; records before the first state change belong to none. Repeated labels collect all their intervals in time order, intervals never overlap, and updating incrementally as records and state changes arrive gives the same assignment as computing it once at the end.",
     ["histories", "inputs"],
     "all label sequences (repeats, exclusions, aliases), all sorted record times, all splits into incremental updates",
     "Tests use one fixed state file and one refresh; repeated or excluded labels around an update are not exercised.",
     ["mass/off/experiment_state.py", "mass/off/channels.py", "mass/core/channel.py"],
     [("interval computation", "ExperimentStateFile.calcStatesDict"), ("refresh", "ChannelGroup.refreshFromFiles")],
     [("statesDict", "label -> slice or list of slices", "Channel._statesDict")], ["statesDict", "getStatesIndicies"])

prop("C09", "Recipes compute exactly what their definition says",
     "Evaluating a recipe calls its function once with, in positional order, the value of each ingredient - read from the source for base ingredients, evaluated recursively for recipes - so the result equals the composed functions applied to the stored values; a leading '!' negates a cut recipe once per '!'. Adding a recipe whose ingredient is unknown, or whose name exists (unless overwriting is requested), is refused with nothing changed, other recipes are never altered, and saving and reloading the book preserves every recipe.",
     ["programs", "inputs"],
     "all acyclic recipe graphs, argument orders and renamings, sources, sequences of additions",
     "Tests build two or three small recipes; argument-order and sharing errors depend on the graph.",
     ["mass/off/util.py"],
     [("ingredient binding", "RecipeBook.add, Recipe._setIngredientToRecipe"), ("evaluation", "Recipe.__call__, RecipeBook.craft, _craftCut")],
     [("craftedIngredients", "name -> recipe", "RecipeBook")], ["craft()"])

prop("C10", "Channel queries return exactly the selected records, aligned",
     "Asking an off-style channel for attributes with a state selection (none, one, or several labels) and a cut returns, for every attribute, exactly the values of the records that lie in the selected states and satisfy the cut, in order of selection and record, all attributes aligned record by record; a negated cut returns exactly the complement within the selection. Histograms count exactly those values per bin, and a group histogram is the sum over its good channels.",
     ["inputs", "configurations"],
     "all record arrays, slices lists, cuts, attributes, groups",
     "Tests compare two implementations on one file; selection bugs depend on slice lists, empty selections and cuts.",
     ["mass/off/channels.py"],
     [("selection", "Channel._indexOffWithCuts, getAttr, getStatesIndicies"), ("histogram", "Channel.hist, ChannelGroup.hist(s)")], [], ["getAttr()", "hist()"])

prop("C11", "Energy calibration tables and curves honour their points",
     "After any sequence of adding and removing calibration points the table holds exactly the points added and not removed (a new point replaces the one of the same name or, to within its energy error, at the same energy), sorted by pulse height, and a table that is refused leaves the calibration unchanged. For every curve type in its exact (non-approximating) mode the calibration curve passes through every point, energy-to-height is the inverse of height-to-energy on the calibrated range, and changing the table always changes the curve used by later conversions; copying or saving and reloading a calibration preserves its points and curve.",
     ["histories", "inputs"],
     "all sequences of add/remove, all point sets with increasing heights and energies, all curve types",
     "Tests check a few fixed point sets; table bookkeeping depends on order, near-coincident energies and mixed add/remove histories.",
     ["mass/calibration/energy_calibration.py"],
     [("table", "EnergyCalibration.add_cal_point, remove_cal_point*"), ("curve", "EnergyCalibration._update_exactcurves, _update_converters, ph2energy, energy2ph"), ("persistence", "save_to_hdf5/load_from_hdf5/copy")],
     [("_ph,_energies,_dph,_de,_names", "parallel sorted arrays", "EnergyCalibration"), ("_model_is_stale", "curve must be rebuilt", "EnergyCalibration")],
     ["ph2energy", "energy2ph", "cal_point_phs", "cal_point_energies"])

prop("C12", "Calibration functions: derivative is the derivative, algebra keeps values",
     "For functions built from constants, identity, exponentials, logarithms, powers, polynomials and splines by sums, products, quotients, compositions and powers, evaluating the combined function equals combining the evaluations, and its derivative of any order evaluates to the true derivative wherever it is defined; automatic simplification never changes the value. (The logarithm is defined from 1e-6 up and held constant below.)",
     ["programs", "inputs"],
     "all function expressions over the building blocks, all points in the domain, all derivative orders",
     "Tests differentiate a few expressions numerically at a few points.",
     ["mass/mathstat/derivative.py"],
     [("operators and simplification", "Function and its operator subclasses"), ("chain/product/quotient rules", "derivative()")], [], ["__call__(x, der)"])

prop("C13", "Cubic splines interpolate smoothly and extrapolate linearly",
     "A cubic spline passes through all its knots (given in any order), its value, slope and curvature are continuous across interior knots, its reported first, second and third derivatives are the true derivatives of its value, it continues as a straight line with the end slope outside the knots, and the requested end conditions (natural or given slopes) hold.",
     ["inputs"],
     "all knot sets (distinct abscissas, any order, any count >= 2), all evaluation points, scalar or array, all end conditions",
     "Tests sample a few curves at value level; higher derivatives, unsorted knots and end pieces are not covered.",
     ["mass/mathstat/interpolate.py"],
     [("second-derivative solve", "CubicSpline._compute_y2"), ("evaluation", "CubicSpline.__call__")],
     [("_y2", "second derivatives at knots", "CubicSpline")], ["__call__"])

prop("C14", "External-trigger timing finds the true nearest arrivals",
     "For every pulse, the reported delay after the last trigger and until the next trigger are the differences to the latest trigger not later than the pulse and to the earliest trigger after it, and a reserved largest value where there is none; this holds for any number of triggers including none and one. Times in seconds are these counts times the true duration of one count, and the nearest-trigger time is the smaller of the two.",
     ["inputs"],
     "all sorted pulse and trigger count arrays of any lengths, including empty, single, coincident and one-sided",
     "Tests use one random pattern; single-trigger, empty and coincident cases are not exercised.",
     ["mass/core/analysis_algorithms.pyx", "mass/core/channel_group.py", "mass/off/channels.py"],
     [("two-pointer merge", "nearest_arrivals"), ("unit conversion", "Channel._calcExternalTriggerTiming, TESGroup.calc_external_trigger_timing")], [], ["seconds_after_last_external_trigger", "subframes_*"])

prop("C15", "Pulse summaries equal their definitions for every record",
     "For every record, the stored pretrigger mean and rms are those of the used pretrigger samples (those between the cut at the start and the ignored ones before the trigger), the minimum is that of the used samples, the peak value is the largest used sample less the pretrigger mean rounded to an integer (0 when it does not exceed the mean) with the index of the first such sample, and the pulse average and rms are those of the samples from the trigger on relative to the pretrigger mean, within the stored precision. The compiled implementation looks for the peak among all used samples and starts the pulse average one sample before the first post-trigger sample, the plain one uses the post-trigger samples; on everything else, and on the peak when it is after the trigger, they agree. These results depend only on the record, never on the chunking of the file or on other records.",
     ["inputs", "configurations"],
     "all records (any 16-bit samples), pretrigger lengths, ignored samples, chunk sizes and record counts",
     "Tests summarise a few synthetic files with a single chunk; extremes of the sample range and long files are not covered.",
     ["mass/core/cython_channel.pyx", "mass/core/channel.py"],
     [("compiled loop", "summarize_data_cython"), ("plain version", "MicrocalDataSet._summarize_data_segment"), ("chunk loop", "MicrocalDataSet.summarize_data")], [], ["p_* vectors"])

prop("C16", "Filtering applies the filter to each record independently",
     "The filtered height and phase of a record are obtained from the inner products of the filter with that record - for the five-lag method the maximum and its position of the least-squares parabola through the five lagged products, for the arrival-time-safe method the pulse product and the ratio of derivative to pulse product at the record's own shift - and depend only on that record and the filter, not on chunking or neighbouring records. The compiled and plain five-lag implementations agree, also for inverted data and other integer sample types.",
     ["inputs", "configurations"],
     "all records, filters, shifts, chunkings, transforms",
     "Tests compare on one file with one chunk; ordering and shift mistakes depend on the data.",
     ["mass/core/analysis_algorithms.pyx", "mass/core/channel.py", "mass/off/fivelag.py"],
     [("five-lag", "filter_data_5lag_cython, MicrocalDataSet._filter_data_segment_5lag, fivelag.*"), ("ATS", "MicrocalDataSet._filter_data_segment_ats*")], [], ["p_filt_value", "p_filt_phase", "filtValue5Lag"])

prop("C17", "Optimal filters have unit response and ignore the baseline",
     "Every optimal filter, smoothed or not, returns the average pulse's own height when applied to the average pulse, is exactly insensitive to a constant baseline when so constructed, and the (unsmoothed) arrival-time-safe filter is insensitive to the derivative-like component and its companion filters likewise isolate their own component; samples excluded at the ends get zero weight. The reported noise variance of the filtered value is the filter's quadratic form with the noise autocorrelation.",
     ["inputs"],
     "all average pulses, noise autocorrelations (positive definite), cut and shift settings",
     "Tests check a few numerical examples.",
     ["mass/core/optimal_filtering.py"],
     [("constraint solve", "FilterMaker.compute_5lag, compute_ats, compute_fourier"), ("normalisation", "FilterMaker._normalize_signal, _normalize_5lag_filter, _normalize_filter, bracketR")], [], ["filter values", "variances"])

prop("C18", "Toeplitz solver solves the system; whitening is inverted by its inverse",
     "For every well-conditioned symmetric or general Toeplitz matrix of any size the solver's answer satisfies the system exactly (up to rounding). Whitening followed by the inverse whitening returns the original vector for every filter order, and the transposed operations are the adjoints.",
     ["inputs"],
     "all sizes, first rows/columns, right-hand sides, ARMA orders including pure AR and pure MA",
     "Tests solve a few random systems; size-1, pure-AR/pure-MA cases are not covered.",
     ["mass/mathstat/toeplitz.py", "mass/core/optimal_filtering.py"],
     [("Levinson recursion", "ToeplitzSolver"), ("ARMA recursion", "ToeplitzWhitener")], [], ["ToeplitzSolver.__call__", "ToeplitzWhitener.*"])

prop("C19", "Robust statistics match their order-statistic definitions",
     "The weighted high median, median absolute deviation, shortest half-range interval and pairwise-difference scale estimators return exactly the order statistic that defines them, for every input including ties and tiny samples, and never modify or depend on the order of the caller's data. Merging two sorted lists yields the sorted multiset union and records, for every element, which list it came from.",
     ["inputs"],
     "all real vectors of all lengths, ties, weights, sortedness flags",
     "Tests compare a few random vectors with brute force; ties, even/odd sizes and one-sided merges are sparse.",
     ["mass/mathstat/robust.pyx", "mass/mathstat/entropy.pyx", "mass/off/util.py"],
     [("selection", "high_median, shorth_range, Qscale, median_abs_dev"), ("merge", "_merge_orderedlists_*")], [], ["return values"])

prop("C20", "Bad channels are excluded exactly, with reasons, until set good",
     "After any sequence of marking channels bad or good, default iteration over a data set visits exactly the channels not marked bad, in order, including-bad iteration visits all of them, and the recorded reasons list every reason given since the channel was last good, in memory and in the stored file alike. When a per-channel operation fails on some channels, exactly those channels are marked bad and all the others are still processed.",
     ["histories", "fault_sequences"],
     "all sequences of mark-bad / mark-good / loop operations over any channel set, any subset of failing channels",
     "Tests mark one or two channels; bookkeeping depends on sequences and failures.",
     ["mass/core/channel_group.py", "mass/core/channel.py", "mass/off/channels.py", "mass/off/util.py"],
     [("bad list", "TESGroup.set_chan_bad/set_chan_good/iter_channels"), ("loop decorators", "_add_group_loop, add_group_loop"), ("include-bad", "ChannelGroup.includeBad/__iter__")],
     [("_bad_channums", "channel -> list of reasons", "TESGroup"), ("markedBadBool", "bad flag", "off.Channel")], ["iteration", "why_chan_bad", "whyChanBad"])

prop("C21", "Channel file names are parsed, paired and ordered by channel number",
     "The channel number and base name of a file are those of the last channel marker in its name; sorting orders files by channel number with ties by name and, when given an inclusion list, keeps exactly the files of listed channels, without altering the caller's list; pairing pulse and noise lists leaves in each exactly the files whose channel is in both lists, allowed and not forbidden, in their original order.",
     ["inputs"],
     "all file-name lists, including repeated channels, several markers, missing partner files, inclusion and exclusion lists",
     "Tests use a few names.",
     ["mass/core/ljh_util.py"],
     [("parse", "ljh_basename_channum"), ("sort", "ljh_sort_filenames_numerically"), ("pair", "remove_unpaired_channel_files")], [], ["return values", "lists modified in place"])

prop("C22", "Gain drift corrections apply the learned linear gain and persist",
     "A drift-corrected value is the uncorrected value times 1 + slope*(indicator - reference indicator) for every pulse, with the slope and reference learned from the selected pulses only, so that a pulse at the reference is unchanged; saving and reloading the correction gives the identical correction. Flux-jump correction changes each value by a whole number of flux quanta only.",
     ["inputs"],
     "all indicator and value vectors, slopes, references, selections",
     "Tests apply to one data set and compare aggregate resolution.",
     ["mass/off/channels.py", "mass/core/channel.py", "mass/core/analysis_algorithms.pyx"],
     [("apply", "DriftCorrection.apply, MicrocalDataSet._apply_drift_correction"), ("persist", "DriftCorrection.toHDF5/fromHDF5"), ("flux", "correct_flux_jumps")], [], ["corrected values"])

prop("C23", "Power spectra and noise autocorrelations are correctly normalised",
     "The power spectrum accumulated from data segments is, bin by bin, the average over segments of the one-sided windowed periodogram (integrating to the mean square for an unwindowed segment), independent of the order in which segments are added and of how often it is read; frequencies run from zero to the Nyquist frequency in equal steps. The noise autocorrelation of separate records is the average over accepted records of the lagged products divided by the number of pairs, and records exceeding the excursion limit contribute nothing.",
     ["inputs"],
     "all segments, windows, segment lengths, record sets and excursion limits",
     "Tests check white noise statistically.",
     ["mass/mathstat/power_spectrum.py", "mass/core/channel.py"],
     [("accumulate", "PowerSpectrum.addDataSegment/addLongData/spectrum"), ("autocorrelation", "NoiseRecords._compute_broken_autocorrelation")], [], ["spectrum()", "autocorrelation"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
