#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
U = "seismostats/utils/"; A = "seismostats/analysis/"; C = "seismostats/catalogs/"; PL = "seismostats/plots/"

prop("C01", "Magnitude binning: nearest bin, ties up, idempotent, order preserving",
 "Binning values to a positive bin width returns, element by element and in the same order, the nearest multiple of that width with exact ties going to the larger multiple; no value moves by more than half a bin, NaN stays NaN, order is preserved, and binning already binned values changes nothing. Non-positive widths are refused. Binning a catalogue applies the same rule to its magnitudes (explicit width first, else the catalogue's own, else an error), records the width used on the result and touches the original catalogue only when asked to work in place.",
 ["inputs", "histories"], "every list of magnitudes, every bin width, every sequence of binning calls (in place or not) on one catalogue",
 "Tests sample a few positive values with two or three widths; they cannot settle ties at negative values, widths such as 0.05/0.25, repeated binning or the in-place/copy histories.",
 [U+"binning.py", C+"catalog.py"], [("bin_to_precision / normal_round", U+"binning.py"), ("Catalog.bin_magnitudes", C+"catalog.py")],
 ["return value of bin_to_precision", "Catalog.magnitude / Catalog.delta_m after bin_magnitudes"])

prop("C02", "Binning consistency decision is exact and shift invariant",
 "The binning check answers yes for a positive width exactly when all non-NaN values differ by whole multiples of that width and, unless the coarser check is switched off, they do not all differ by whole multiples of the next larger power of ten as well; for width zero (no binning) it answers no exactly when they differ by whole multiples of the smallest power of ten above the tolerance (and yes when the coarser check is off). The answer does not depend on the order of the values, on repetitions or on a common offset of all values. An empty sample is refused.",
 ["inputs"], "every sample of magnitudes (NaN included), every width, coarser check on or off",
 "Tests call it on a handful of arrays; the decision must be right for every residue pattern, since every estimator refuses or accepts data on it.",
 [U+"binning.py"], [("binning_test", U+"binning.py")], ["return value of binning_test"])

prop("C03", "Frequency-magnitude distributions conserve events; maximum-curvature Mc",
 "The frequency-magnitude distribution has contiguous bins from the smallest to the largest binned magnitude, each bin holding exactly the number (or the summed weight) of the events binned to it, so that the counts add up to the sample; the cumulative distribution at a bin is the count of all events in that bin or above; left-edge positions are the centres minus half a bin and the returned binned magnitudes stay in input order. The maximum-curvature completeness is the (lowest) fullest bin's centre plus the correction, ignoring NaN magnitudes.",
 ["inputs"], "every sample of magnitudes, weights, bin width, bin position and correction factor",
 "Tests compare a few fixed histograms; conservation, empty inner bins, edge bins, weights and ties must hold for all samples.",
 [U+"binning.py", A+"estimate_mc.py", C+"catalog.py"], [("get_fmd / get_cum_fmd", U+"binning.py"), ("estimate_mc_maxc", A+"estimate_mc.py")],
 ["return values of get_fmd, get_cum_fmd, estimate_mc_maxc", "Catalog.mc after Catalog.estimate_mc_maxc"])

prop("C04", "Estimators use exactly the complete sample and keep no memory of earlier calls",
 "Every a- and b-value estimator uses exactly the events whose magnitude is at or above the completeness magnitude minus half a bin (NaN never counts), and its reported indices point, in the order used, at the input events they came from, in step with the reported magnitudes, times, weights and sample size. A sample that is not consistent with the stated bin width, negative weights, weights of another length, or a negative difference cutoff are refused with an error. The result of a calculation depends only on that call's arguments, not on earlier calls on the same estimator, and reading a result before any calculation is an error.",
 ["inputs", "histories"], "every sample, completeness magnitude, bin width, weights and time order; every sequence of calculations on one estimator object",
 "Tests use one or two calls per estimator with sorted sample data; index alignment and independence of call history quantify over all inputs and call sequences.",
 [A+"bvalue/base.py", A+"avalue/base.py", A+"bvalue/positive.py", A+"bvalue/more_positive.py", A+"avalue/positive.py", A+"avalue/more_positive.py"],
 [("_filter_magnitudes, _sanity_checks, calculate", A+"bvalue/base.py"), ("_filter_magnitudes, _sanity_checks, calculate", A+"avalue/base.py")],
 ["idx, magnitudes, times, weights, n, value of an estimator after calculate"],
 [("estimator attributes", "sample used by the last calculation", A+"bvalue/base.py")])

prop("C05", "Classic and Utsu b-values, weights and Shi-Bolt uncertainty",
 "For the complete sample with mean excess over completeness x (weighted when weights are given) and bin width d, the classic estimate is log10(1+d/x)/d (1/(x ln 10) for continuous magnitudes) and the Utsu estimate is 1/((x+d/2) ln 10); beta is ln 10 times b, and the reported standard deviation is ln(10) b^2 times the (weighted) population deviation of the sample over sqrt(n-1), n being the number or total weight of events. Unit weights change nothing and an integer weight equals repeating the event. An empty complete sample gives NaN rather than a number.",
 ["inputs"], "every sample, completeness magnitude, bin width (zero included) and nonnegative weights",
 "Tests compare against fixed numbers on one simulated sample each; the identity and its weight semantics must hold for every sample.",
 [A+"bvalue/classic.py", A+"bvalue/utsu.py", A+"bvalue/base.py", A+"bvalue/utils.py"],
 [("_mle_estimator", A+"bvalue/classic.py"), ("UtsuBValueEstimator._estimate", A+"bvalue/utsu.py"), ("shi_bolt_confidence", A+"bvalue/utils.py")],
 ["b_value, beta, std, std_beta, value, n"])

prop("C06", "b-positive uses exactly the consecutive positive magnitude differences",
 "The b-positive estimate is the classic estimate applied to the differences between each complete event and its immediate predecessor in time among complete events, keeping exactly the differences that reach the cutoff (bin width by default) within half a bin; each kept difference carries the index, time and weight of the later event. Supplying times makes the result independent of the order in which the events are listed. A sample without any kept difference gives NaN.",
 ["inputs"], "every sequence of magnitudes, every time order, cutoff, weights, bin width (zero included)",
 "Tests use one catalogue per option; which differences are kept and how indices/weights follow a reordering is a statement over all sequences.",
 [A+"bvalue/positive.py"], [("BPositiveBValueEstimator._estimate", A+"bvalue/positive.py")],
 ["b_value, magnitudes, idx, times, weights, n"])

prop("C07", "b-more-positive pairs every event with the first later sufficiently larger one",
 "The b-more-positive estimate is the classic estimate applied to the differences between each complete event and the first later complete event exceeding it by at least the cutoff (within half a bin); events without such a successor contribute nothing, and each difference carries the index, time and weight of that successor. Supplying times makes the result independent of the listing order. A sample without any pair gives NaN.",
 ["inputs"], "every sequence of magnitudes, every time order, cutoff, weights, bin width (zero included)",
 "The pairing is a case-rich search over whole sequences; tests look at one short example and one simulated catalogue.",
 [A+"bvalue/more_positive.py", A+"bvalue/utils.py"], [("find_next_larger", A+"bvalue/utils.py"), ("BMorePositiveBValueEstimator._estimate", A+"bvalue/more_positive.py")],
 ["b_value, magnitudes, idx, times, weights, n", "return value of find_next_larger"])

prop("C08", "a-values count the right events over the right time",
 "The classic a-value is log10 of the number of complete events; a-positive is log10 of the number of consecutive positive differences divided by the fraction of the total time they span; a-more-positive weights, for each event, the waiting time to its first sufficiently larger successor (or to the end of the record) by 10^(-b(m+cutoff-mc)). Each is then shifted by -b(m_ref-mc) when a reference magnitude is given (which requires a b-value) and by -log10 of the scaling factor when one is given. Listing order does not matter once times are given, and a sample with no usable event gives NaN.",
 ["inputs"], "every sample with times in any order, every completeness, cutoff, b-value, reference magnitude and scaling factor",
 "Tests check one short example per estimator; the waiting-time bookkeeping and the combination of the two scalings range over all inputs.",
 [A+"avalue/base.py", A+"avalue/classic.py", A+"avalue/positive.py", A+"avalue/more_positive.py"],
 [("_reference_scaling", A+"avalue/base.py"), ("_estimate", A+"avalue/positive.py"), ("_estimate", A+"avalue/more_positive.py")],
 ["a_value, idx, magnitudes, times, n"])

prop("C09", "KS completeness: right distance, right p-value, smallest passing Mc",
 "For a tested completeness magnitude the KS distance is the largest absolute gap, over all bins from that magnitude up to the largest event, between the empirical cumulative share of events and the binned Gutenberg-Richter distribution, and the p-value is the share of reference distances that are at least as large. The completeness search tests the candidates in ascending order, stops at the first pass when asked to, returns the smallest passing candidate with its b-value (nothing when none passes), and its reported lists of candidates, b-values, distances and p-values line up one to one. A sample with fewer than two distinct magnitudes never passes.",
 ["inputs", "configurations"], "every binned sample, candidate list (any order, duplicates), threshold, stop flag, given or estimated b-value and reference distances",
 "Tests run two or three catalogues through it; selection order, alignment and the distance at bins without events range over all samples and candidate lists.",
 [A+"estimate_mc.py", C+"catalog.py"], [("ks_test_gr, estimate_mc_ks, cdf_discrete_exp", A+"estimate_mc.py")],
 ["return values of ks_test_gr and estimate_mc_ks", "Catalog.mc after Catalog.estimate_mc_ks"])

prop("C10", "b-value stability Mc search follows its documented criterion",
 "For every candidate completeness magnitude the stability search compares the b-value at the candidate with the mean of the b-values over the candidates within the stability range above it, in units of the standard deviation at the candidate, and a candidate passes when that ratio is at most one. It reports the candidates actually tested with their b-values and ratios in matching order, stops at the first pass when asked to, otherwise returns the passing candidate with the smallest ratio, and returns nothing when none passes; magnitude zero is a legitimate answer. Candidates too close to the largest magnitude to cover the range are not tested, and if none is left an error is raised.",
 ["inputs", "configurations"], "every binned sample, candidate list, stability range, stop flag and estimator",
 "Tests use one catalogue where the first pass is positive; ties, zero, non-stopping searches and short ranges need all samples.",
 [A+"estimate_mc.py", C+"catalog.py"], [("estimate_mc_b_stability", A+"estimate_mc.py")],
 ["return value of estimate_mc_b_stability", "Catalog.mc after Catalog.estimate_mc_b_stability"])

prop("C11", "QuakeML parsing gives each event its own preferred origin and magnitudes",
 "Parsing QuakeML yields exactly one record per event element, in document order, holding the values of that event's own preferred origin and preferred magnitude (nothing when the preference names none of them) independent of the order of elements inside the event, of other events and of how the text is chunked or indented. When other magnitudes are requested, every other magnitude type of the event is reported once, chosen by the highest version and then the latest creation time, and never overwrites the preferred one. Text content is returned complete (only surrounding whitespace removed), and a document that is cut off or malformed raises an error instead of returning part of the events.",
 ["inputs", "schedules"], "every QuakeML document, element order, chunking of the stream, option combination and truncation point",
 "Tests parse four fixed files in one read each; order independence, event isolation and chunk boundaries quantify over all documents and splits.",
 ["seismostats/io/parser.py", C+"catalog.py"], [("QuakeMLHandler", "seismostats/io/parser.py"), ("_select_magnitude_by_id, _select_secondary_magnitudes", "seismostats/io/parser.py")],
 ["return values of parse_quakeml, parse_quakeml_file, parse_quakeml_response"],
 [("handler.parent/location/event/origin/magnitude", "position in the document and partial event", "seismostats/io/parser.py")])

prop("C12", "QuakeML export followed by import preserves the catalogue",
 "Exporting a catalogue to QuakeML and importing it again returns the same events in the same order with equal times (to the microsecond), coordinates, depths, magnitudes and uncertainties, magnitude and event types, evaluation modes, identifiers, quality values and all secondary magnitudes, whatever characters the text values contain. Missing values come back missing; only events without a location or time are left out. A forecast catalogue exports one document per catalogue id, each holding exactly that catalogue's events.",
 ["inputs"], "every catalogue with any subset of optional columns, any pattern of missing values and any text",
 "Tests round-trip two fixed catalogues; missing-value patterns, type-name overlaps and special characters range over all catalogues.",
 [C+"catalog.py", C+"catalog_templates/quakeml.j2", "seismostats/io/parser.py", U+"__init__.py"],
 [("Catalog.to_quakeml, _create_ids, _secondary_magnitudekeys", C+"catalog.py"), ("template", C+"catalog_templates/quakeml.j2")],
 ["Catalog.from_quakeml(cat.to_quakeml())"])

prop("C13", "Event download returns every matching event once, in order, or fails",
 "For any number of events on the server and any batch size, a batched download returns exactly the events of the unbatched one, each once and in server order, needs only logarithmically many extra probing requests, and never asks for an empty or overlapping page of data. Request parameters reflect exactly the caller's choices (minimum magnitude lowered by half a bin when a bin width is given, every given extra parameter passed on, nothing left from earlier calls), and the returned catalog carries the requested start and end of the period. A server error or broken reply during any request makes the call fail rather than silently return fewer events.",
 ["inputs", "histories", "fault_sequences"], "every event count, batch size, query combination, sequence of calls on one client and position of a failing request",
 "Tests mock two fixed responses; the search over event count/batch size combinations and the position of a fault are quantifiers a test cannot enumerate.",
 [C+"client.py"], [("get_events, _get_events_batched, _get_batch_count, _exists_with_offset", C+"client.py")],
 ["HTTP requests sent and the catalogue returned by get_events"],
 [("client.params", "query parameters of the current call", C+"client.py")])

prop("C14", "Catalogues stay catalogues and keep their metadata through DataFrame operations",
 "Any DataFrame operation that selects, reorders, reshapes, changes or combines the rows and columns of a catalogue yields a catalogue when the result has a magnitude column (a forecast catalogue when it also has catalogue ids), otherwise a plain table, with the values the same operation gives on a plain table; it never fails only because the object is a catalogue. Summaries (describe, agg, moving windows), and columns relabelled, assigned or changed in place, need not change the kind. The catalogue attributes (name, completeness, bin width, a- and b-value, period, region, depth range, number of catalogues) are carried over unchanged to the result, for combinations from the first operand, and setting an attribute on a result never changes the original. Stripping keeps exactly the standard columns of the kind of catalogue it is applied to and refuses when one is missing.",
 ["histories", "inputs"], "every sequence of DataFrame operations starting from any catalogue",
 "Tests apply single operations to one catalogue; metadata loss and type changes show up in chains of operations and unusual operations.",
 [C+"catalog.py"], [("_constructor, _catalog_constructor_with_fallback, __finalize__, _metadata", C+"catalog.py"), ("Catalog.strip", C+"catalog.py")],
 ["type, columns and metadata of the results"],
 [("_metadata attributes", "catalogue attributes that travel with the data", C+"catalog.py")])

prop("C15", "Catalogue estimation methods use explicit arguments first and store their result",
 "Catalogue methods estimating completeness, b-value and a-value take the completeness magnitude and bin width they need from the explicit argument if given, else from the catalogue's attribute, else raise an error; the KS search takes a given b-value in the same way but estimates it when there is none. The a- and b-value methods use the catalogue's weight and time columns (and any other column named like a parameter) when the chosen estimator can use them and none were passed. They give the same result as the corresponding standalone estimator on the catalogue's columns and store it on the catalogue (completeness, b-value, a-value) without changing any other attribute or the data. A failed call leaves the catalogue as it was.",
 ["histories", "configurations"], "every sequence of estimation calls with any combination of given/absent arguments, attributes and columns",
 "Tests check a few argument combinations in isolation; precedence and attribute flow matter over call histories.",
 [C+"catalog.py"], [("Catalog.estimate_b / estimate_a / estimate_mc_*", C+"catalog.py"), ("_check_catalog_cols", C+"catalog.py")],
 ["attributes of the catalogue and of the returned estimator"],
 [("mc, delta_m, b_value, a_value", "catalogue attributes", C+"catalog.py")])

prop("C16", "Catalogue construction normalises values without losing events",
 "Building a catalogue from records, columns or another table keeps every event, its order and its unrelated columns; magnitudes, coordinates and quality values become numbers with anything unparsable turned into missing, times become timestamps without timezone showing the clock time as written (whatever the notation or timezone of other events, also for years before 1678), something that is no time is refused, and the usual spellings of null in the type columns become missing. The caller's data is left untouched. Dropping uncertainties or identifiers removes exactly the columns of that kind, and an empty construction has exactly the standard columns.",
 ["inputs"], "every table of records with any mixture of text, numbers, nulls and time notations",
 "Tests use clean tables; the coercions apply to every column and cell value a caller may hand in.",
 [C+"catalog.py", U+"__init__.py"], [("Catalog.__init__, from_dict, drop_ids, drop_uncertainties", C+"catalog.py"), ("_robust_parse_datetime", U+"__init__.py")],
 ["columns and cells of the constructed catalogue"])

prop("C17", "Rate grids: concatenation, cell identity, period and statistics",
 "Concatenating rate grids keeps every row of every grid unchanged under its own period, gives rows with equal cell bounds the same cell id and rows with different bounds different ids, and the result spans from the earliest start to the latest end. Selecting, copying or transforming a grid keeps its kind (as far as its columns allow), its metadata and, per row, its cell id, and gives the rows which pandas gives for a plain table. Forecast statistics group rows by cell (and period where there is one), aggregate each numeric column over exactly the rows of the group, keep the bounds of the cell, and lose no cell (cells without depth bounds included).",
 ["inputs", "histories"], "every set of grids with any cell layouts, periods, number of realisations, NaN bounds and sequences of concat/select/copy",
 "Tests use one regular grid; cell identity across differently ordered, overlapping or unbounded grids needs all layouts.",
 [C+"rategrid.py"], [("GRRateGrid.concat, add_time_index, _reindex_cell_id", C+"rategrid.py"), ("ForecastGRRateGrid.calculate_statistics", C+"rategrid.py")],
 ["rows, index, metadata of grids; statistics table"],
 [("index levels / cell_id", "identity of cell and period", C+"rategrid.py")])

prop("C18", "Window declustering removes exactly the dependent events",
 "Gardner-Knopoff declustering visits events from largest to smallest magnitude (earlier first among equals), lets each not yet assigned event claim all unassigned events inside its own magnitude-dependent distance and time window (limits included; shortened before it by the foreshock factor), and reports as mainshocks exactly the events that headed a group. The result is one flag per event in input row order and does not depend on the catalogue's row labels or, apart from exact magnitude-and-time ties, on row order; the catalogue itself is not changed. The window functions give the published magnitude-dependent sizes with the time window capped by the cutoff.",
 ["inputs"], "every catalogue (any row order and labels), window function, foreshock proportion and cutoff",
 "Tests decluster one sorted catalogue; assignment chains, ties and label/order independence are statements over all catalogues.",
 [A+"declustering/dec_gardner_knopoff.py", A+"declustering/distance_time_windows.py", A+"declustering/utils.py", A+"declustering/base.py"],
 [("GardnerKnopoffType1._decluster", A+"declustering/dec_gardner_knopoff.py"), ("windows", A+"declustering/distance_time_windows.py")],
 ["flag array returned by the declusterer"])

prop("C19", "b-value significance: partitioning, Moran's I and resulting statistics",
 "The significance analysis orders the events by the chosen variable together with their times and completeness magnitudes, drops incomplete events, and for each of the n offsets cuts the rest into consecutive groups of exactly n events, discarding incomplete groups at both ends. Each group is estimated on its own time-ordered events with the group's largest completeness magnitude; groups with too few usable events do not count. The reported mean autocorrelation is the average over offsets of Moran's I over neighbouring valid groups, with expectation -1/mean number of values and the documented standard deviation, and the p-value follows from them; too few groups give NaN. Moran's I itself uses every pair of valid neighbours once, for triangular and symmetric neighbour matrices alike.",
 ["inputs", "configurations"], "every event sequence, ordering variable, scalar or per-event completeness, group size and estimator",
 "Tests check summary numbers for two catalogues; alignment of the reordered arrays and the offsets' group boundaries range over all sequences.",
 [A+"b_significant.py"], [("b_significant_1D, values_from_partitioning, cut_constant_idx, est_morans_i, transform_n", A+"b_significant.py")],
 ["return values of b_significant_1D, values_from_partitioning, cut_constant_idx, est_morans_i, transform_n"])

prop("C20", "Simulated and dithered magnitudes respect their bounds and bins",
 "Simulated magnitudes lie at or above the lower bound and, when an upper magnitude is given (zero and negative values included), not above it; binned simulation returns multiples of the bin width no lower than the completeness magnitude, and requested sample sizes are met. Dithering returns as many values as given, and exactly as many inside each half-bin interval around every bin centre as there were events in that bin; within the bins they follow the exponential law. Simulated samples follow the stated exponential law within statistical tolerance, the same for the b-value and beta parametrisations.",
 ["inputs"], "every sample size, slope, lower/upper bound, bin width and every binned sample to dither",
 "Tests check one parameter set each; the bounds must hold for every draw and parameter sign.",
 [U+"simulate_distributions.py"], [("simulate_magnitudes, simulate_magnitudes_binned, dither_magnitudes", U+"simulate_distributions.py")],
 ["returned samples"])

prop("C21", "Kijko-Smit and Weichert use exactly the events complete in their time interval",
 "With a completeness table of magnitudes and start years, the Kijko-Smit estimate combines, for each interval between successive start years, the events of that interval above its completeness magnitude, each interval weighted by its share of the complete events; the Weichert estimate uses exactly the events whose year is not before the start year of the largest table magnitude below them, grouped into the stated magnitude bins up to the maximum magnitude (bins without events take part in the likelihood). The Kijko-Smit rate is the number of complete events divided by the durations of the intervals, each reduced to its completeness magnitude by the Gutenberg-Richter law. Given the final year, events outside the table do not influence the results, nor does the order of the events. Asking for beta instead of the b-value returns the same estimate times ln 10 with the same rate and a-value.",
 ["inputs"], "every catalogue, completeness table, final year, bin width and output parametrisation",
 "Tests run one catalogue with one table in one parametrisation.",
 [A+"bvalue/kijko_smit.py", A+"bvalue/weichert.py"], [("estimate_b_kijko_smit", A+"bvalue/kijko_smit.py"), ("estimate_b_weichert", A+"bvalue/weichert.py")],
 ["returned tuples"])

prop("C22", "Plots draw exactly the computed data",
 "What a plot shows equals the quantity it documents: the distribution plots show the (cumulative) frequency-magnitude counts of the non-NaN events with a fitted line anchored at the complete count, the cumulative-count plot steps through the complete events in time order by their weight (ending at one when normalised), the magnitude-time plot shows every event at its time with the given completeness steps, and the b-value plots show estimator values with symmetric error bands of the stated confidence. Dot sizes grow monotonically from the smallest to the largest size and are finite, also when all magnitudes are equal. Plotting uses the given axes, never changes the data, and leaves the caller's arguments unmodified.",
 ["inputs", "configurations"], "every data set and option combination",
 "Tests only check that plotting does not crash or compare a few attributes.",
 [PL+"basics.py", PL+"statistical.py", C+"catalog.py"], [("plot_fmd, plot_cum_fmd, plot_cum_count, plot_mags_in_time, dot_size", PL+"basics.py"), ("plot_mc_vs_b, plot_b_series_constant_nm, plot_b_significant_1D", PL+"statistical.py")],
 ["artists on the returned axes", "arguments after the call"])

prop("C23", "Analysis calls never modify the caller's data",
 "No analysis, binning, declustering, simulation, conversion, export or plotting call changes the arrays, lists, tables, catalogues, neighbour matrices or metadata handed to it, except operations explicitly requested in place and the documented storing of a result on the catalogue. Results own their data: changing a returned object later does not alter the input. Repeating a deterministic call with the same arguments gives the same result.",
 ["inputs", "histories"], "every public call in any order on shared inputs",
 "Tests look at return values and rarely at the arguments afterwards; aliasing shows up only in sequences of calls sharing data.",
 [A+"bvalue/base.py", A+"avalue/base.py", A+"b_significant.py", A+"estimate_mc.py", U+"binning.py", U+"filtering.py", C+"catalog.py", C+"rategrid.py", PL+"basics.py"],
 [("copies at entry (np.array, DataFrame.copy)", "throughout")], ["arguments before and after each call", "results of repeated calls"])

prop("C24", "The warnings option silences warnings and nothing else",
 "With the warnings option switched off the library emits none of its own warnings, and with it on it emits them in the documented situations; every result or error of every call is the same in both settings. The option keeps the last value set, is shared by the whole library, and unknown option names are refused when set.",
 ["configurations", "histories"], "every call sequence interleaved with switching the option",
 "Tests toggle the option once; that no result depends on it is a statement about all calls and switch histories.",
 [U+"_config.py", A+"estimate_mc.py", A+"bvalue/base.py", A+"avalue/base.py", A+"b_significant.py"],
 [("set_option / get_option", U+"_config.py")], ["warnings emitted and results returned under both settings"],
 [("options table", "current option values", U+"_config.py")])

prop("C25", "Spatial selection and local coordinates are exact",
 "Polygon selection returns exactly the events whose (latitude, longitude) point lies inside or on the polygon, with all columns, in their original order and leaving the catalogue unchanged. Transforming to local coordinates subtracts the reference point from the projected coordinates, transforming back returns the original coordinates, altitudes shift by the reference altitude only when given, and polygons are transformed vertex by vertex in the same way. A bounding box and its polygon convert into each other without loss.",
 ["inputs"], "every point set, polygon, projection pair and reference point",
 "Tests check one polygon and one point per transformation.",
 [U+"filtering.py", U+"coordinates.py"], [("cat_intersect_polygon", U+"filtering.py"), ("CoordinateTransformer, bounding_box_to_polygon, polygon_to_bounding_box", U+"coordinates.py")],
 ["returned table, coordinates and polygons"])

prop("C26", "OpenQuake conversion preserves the catalogue",
 "Converting a catalogue to the OpenQuake format and back keeps the number and order of the events, every magnitude, coordinate and depth, other columns and the time of each event (to the microsecond); identifiers are kept, or created unique when absent. An empty catalogue converts to an empty one in both directions. The date and time fields written agree with the catalogue's timestamps, and reading an OpenQuake catalogue gives every event the time its fields name, in any year.",
 ["inputs"], "every catalogue with any optional columns and times down to microseconds",
 "Tests convert one catalogue with second resolution.",
 [C+"catalog.py"], [("Catalog.to_openquake / from_openquake", C+"catalog.py")], ["Catalog.from_openquake(cat.to_openquake())"])

prop("C27", "Short-term incompleteness filter keeps exactly the unmasked events",
 "Making a catalogue more incomplete removes exactly those events that are preceded, within less than the given time, by a strictly larger event, and keeps all others in time order (simultaneous events as listed); the optional mask marks the kept events of the time-ordered catalogue. A larger time window never keeps more events, filtering twice with the same window changes nothing more, and the inputs are unchanged.",
 ["inputs"], "every sequence of magnitudes and times (listed in any order) and window length",
 "Tests check one short sequence.",
 [A+"bvalue/utils.py"], [("make_more_incomplete", A+"bvalue/utils.py")], ["returned magnitudes, times and mask"])

prop("C28", "Local magnitudes convert to moment magnitudes by the published relation",
 "Converting a magnitude whose type names a local magnitude (in any letter case) returns the type Mw_converted and 1.02 + 0.472 M + 0.0491 M^2; a moment magnitude is returned with type and value as they are, so that converting a catalogue twice changes nothing more. Magnitudes of other types are never passed off as converted, and missing values stay missing.",
 ["inputs"], "every magnitude type and value, single events and whole catalogues, converted once or repeatedly",
 "Tests convert a handful of values.",
 [A+"magnitudes.py"], [("apply_edwards", A+"magnitudes.py")], ["returned type and value"])

prop("C29", "The exponentiality test depends on the shape of the complete sample alone",
 "The Lilliefors p-value of a magnitude sample is the probability that belongs to the largest distance between its empirical distribution above the completeness magnitude and the exponential law with its mean: it does not depend on the order of the events, on the magnitude unit, or on where the completeness magnitude lies, and among samples of equal size a larger distance never gets a larger p-value. Magnitudes below the completeness magnitude are refused. The p-value of an estimator is that of the magnitudes (or positive differences above the margin) it used; for binned magnitudes it stays within the bounds that hold for any placement of the events inside their bins, and over samples of the exponential law it averages to about one half. Testing does not change the sample or the estimator.",
 ["inputs"], "every sample, completeness magnitude, unit, bin width and estimator (classic, Utsu, b-positive)",
 "Tests compare two fixed samples with the same function called directly.",
 [A+"lilliefors.py", A+"bvalue/base.py"], [("ks_test_gr_lilliefors", A+"lilliefors.py"), ("BValueEstimator.p_lilliefors", A+"bvalue/base.py")], ["returned p-value"])

prop("C30", "Bootstrap uncertainties are the spread over resamples of the sample",
 "The bootstrap standard deviation evaluates the statistic on exactly the requested number of resamples, each as large as the sample and drawn from it with every element equally likely, and returns the standard deviation (with one degree of freedom removed) of the valid results, NaN and infinite ones being disregarded and NaN returned when fewer than two are valid; the same seed gives the same resamples. The uncertainty of a b-more-positive estimate is such a spread over the complete events in time order, so it does not depend on the order in which the events are listed with their times, and the uncertainty of beta is ln 10 times that of the b-value. The sample and the estimate are left unchanged.",
 ["inputs"], "every sample, statistic, number of resamples and seed; every magnitude series with or without times and weights",
 "Tests compare one bootstrap with a wide tolerance.",
 [A+"bvalue/utils.py", A+"bvalue/more_positive.py"], [("bootstrap_std", A+"bvalue/utils.py"), ("BMorePositiveBValueEstimator.std / std_beta", A+"bvalue/more_positive.py")], ["resamples handed to the statistic", "returned standard deviation"])

prop("C31", "KS reference distances are those of Gutenberg-Richter samples of equal size",
 "When no reference distances are given, the Kolmogorov-Smirnov test draws as many as asked for, each the distance of a sample of the binned Gutenberg-Richter law with the stated completeness magnitude, bin width and b-value, of the same number of events and with the same weights as the tested sample. The p-value is therefore (up to the number of draws) the probability that such a sample lies at least as far from the law as the tested one, for every candidate of a completeness search as well, and over samples of the law p-values average to about one half. A sample of a single magnitude never passes. Testing changes neither sample nor candidates.",
 ["inputs"], "every sample, weights, completeness magnitude, bin width, b-value and number of draws",
 "Tests compare one p-value with a wide tolerance; they cannot see the distribution of the draws.",
 [A+"estimate_mc.py", "seismostats/utils/simulate_distributions.py"], [("ks_test_gr, estimate_mc_ks", A+"estimate_mc.py"), ("simulate_magnitudes_binned", "seismostats/utils/simulate_distributions.py")], ["returned distances and p-values"])

prop("C32", "Methods refuse tables lacking a column they need and name what is missing",
 "A method of a catalogue or rate grid runs whenever the columns it needs are present, and is otherwise refused with an error naming exactly the missing ones before it changes the table, its attributes or draws anything. What it needs is fixed by the method and the kind of table: the magnitude for binning, estimation and magnitude distributions; also the time for plots in time, or the coordinates for maps; location, depth, time and magnitude for OpenQuake; all standard columns of the kind for stripping, QuakeML and time indices. Whether a call is refused depends on the present columns alone, not on their order, on further columns, on other tables or on earlier calls, refused or not.",
 ["inputs", "histories"], "every history of removing and adding columns and calling methods on several tables of every kind",
 "Tests call one method on a table without one column once; what a requirement list remembers between calls stays unseen.",
 ["seismostats/utils/__init__.py", C+"catalog.py", C+"rategrid.py"], [("require_cols", "seismostats/utils/__init__.py"), ("Catalog, ForecastCatalog methods", C+"catalog.py"), ("GRRateGrid methods", C+"rategrid.py")], ["raised error and its message", "table before and after the call"])

prop("C33", "Exported helper functions agree with their published closed forms",
 "b-value and beta convert into each other by the factor ln 10, there and back. The Gutenberg-Richter line has the given number at the completeness magnitude and changes by 10^-b per magnitude unit; the discrete exponential distribution gives, at each distinct magnitude in ascending order, the share 1-10^(-b(m+width-mc)). The Shi-Bolt limit is ln(10) b^2 (beta^2 for beta) times the population deviation of the (weighted) magnitudes over the square root of the number or total weight less one, no finite number when that is not positive, and other parameter names are refused. The great-circle distance is the Earth radius times the angle between the points: finite for every pair, opposite points included, symmetric, and unchanged by a common rotation in longitude, a full turn or mirroring.",
 ["inputs"], "every b-value, sample, weights, completeness magnitude, width and pair of points",
 "Tests compare a few values; signs, weights, the beta branch and points on opposite sides of the globe are not sampled.",
 [A+"bvalue/utils.py", A+"estimate_mc.py", A+"declustering/utils.py", PL+"basics.py"], [("shi_bolt_confidence, b_value_to_beta, beta_to_b_value", A+"bvalue/utils.py"), ("cdf_discrete_exp", A+"estimate_mc.py"), ("haversine", A+"declustering/utils.py"), ("gutenberg_richter", PL+"basics.py")], ["returned values"])

prop("C34", "Arguments that do not fit together are refused, fitting ones are accepted",
 "Every function that takes several arrays describing the same events (magnitudes, times, weights, completeness magnitudes, ordering variable, lists of subsets and scalings, colours per line) raises an error when their lengths differ, instead of computing on a part of them. Likewise refused are samples not on the stated bin width (estimators, completeness searches, dithering), negative weights and negative difference thresholds, a missing b-value where one is needed (reference magnitude, a-more-positive), non-positive bin widths, unknown names of parametrisations, bin positions, plot techniques and options, window sizes below the minimum number, offsets of a full window or more, magnitude ranges below the stability range, neighbour matrices that are not square, of another size, neither one-sided nor symmetric or hold other entries than 0 and 1, completeness tables that are not two ascending columns, and samples below the lower limit of the Lilliefors test. Arguments that fit are accepted in every combination of options. A refused call leaves the arguments and the estimator usable: the next fitting call gives what a fresh object gives.",
 ["inputs", "histories"], "every combination of fitting and unfitting arguments of some forty functions, and every history of refused and accepted calls on the same estimator",
 "Tests try one wrong argument for some functions on fresh objects; whether a wrong argument is noticed must not depend on the other arguments, on the direction of the mismatch or on earlier calls.",
 [A+"bvalue/base.py", A+"bvalue/positive.py", A+"avalue/base.py", A+"b_significant.py", A+"estimate_mc.py", U+"binning.py", PL+"basics.py", PL+"statistical.py"], [("argument checks at the start of the functions", "seismostats/analysis, seismostats/plots, seismostats/utils")], ["exceptions raised, results of later calls, arguments after the call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
