"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=a))

S = "src/sorcha/"
prop("C01", "Every object is processed exactly once, whatever the chunk size",
     "For every positive chunk size a run takes each object of the input population into processing exactly once and in input order: with the random effects off, the detections and statistics it reports are the same for every chunk size. No object is skipped because an earlier chunk was empty, culled or yielded nothing, and none is reported twice.",
     ["inputs", "configurations"],
     "All populations, all chunk sizes (1, dividing, not dividing, equal to and larger than the population), both surveys, external and generated ephemerides, with and without objects that yield no candidates or are culled.",
     "The end-to-end chunking tests need a missing database and are not runnable here; the unit tests never drive the chunk loop, and a sample of two chunk sizes cannot settle all of them.",
     [S+"sorcha.py", S+"des.py", S+"readers/CombinedDataReader.py"],
     [("chunk loop: start/end counters, skip of empty chunks", S+"sorcha.py: runLSSTSimulation; "+S+"des.py: runDESSimulation"),
      ("block cursor of the combined reader", S+"readers/CombinedDataReader.py: read_block, read_aux_block")],
     [("cursor", "how many objects have been handed out", S+"readers/CombinedDataReader.py block_start")],
     ["detections file", "statistics file", "returned tables"])
prop("C02", "An object's detections do not depend on the rest of the population",
     "With the random effects off, the detections a run reports for an object are those that a run on that object alone reports. Reordering the rows of the orbit, physical, complex-parameter, ephemeris or visit inputs, or splitting the population over several runs and uniting their outputs, changes no reported detection. Objects whose identifiers cannot be told apart because they are empty or read as missing values (such as NA) are refused.",
     ["inputs", "configurations"],
     "All populations and all permutations and partitions of them, for every combination of deterministic filters including linking and the DES discovery criterion.",
     "A relation between pairs of runs; the tests run fixed tables in a fixed order through single functions.",
     [S+"sorcha.py", S+"des.py", S+"modules/PPMiniDifi.py", S+"modules/PPLinkingFilter.py", S+"modules/DESDiscoveryFilter.py", S+"modules/PPDistanceandMotionCuts.py", S+"modules/PPApplyColourOffsets.py"],
     [("grouping of detections by object", S+"modules/PPMiniDifi.py: linkObservations; "+S+"modules/DESDiscoveryFilter.py"),
      ("row-wise filters and index handling", S+"modules/*Limit.py, PPApplyFOVFilter.py")],
     None, ["detections file"])
prop("C03", "Reading input tables: blocks tile the file, look-ups return whole objects",
     "For every input table, successive block reads return each row exactly once in file order, and a look-up by identifiers returns exactly the rows of those identifiers, with identifiers kept as text (those that read as missing values, such as NA, aside) and every value unchanged. The result is the same for comma-separated, whitespace-separated and HDF5 files, whether or not comment lines precede the header, the table is kept in memory, or look-ups and block reads alternate.",
     ["inputs", "histories"],
     "All tables, row orders, block sizes, identifier sets (including numeric-looking, absent and repeated ones) and all interleavings of block reads and look-ups.",
     "Tests read a few fixed files with a handful of block boundaries; interleavings of the access methods are not explored.",
     [S+"readers/ObjectDataReader.py", S+"readers/CSVReader.py", S+"readers/HDF5Reader.py", S+"readers/EphemerisReader.py", S+"readers/OrbitAuxReader.py", S+"readers/CombinedDataReader.py"],
     [("row windows and skip counts", S+"readers/CSVReader.py: _read_rows_internal"), ("identifier map", S+"readers/*: _build_id_map, _read_objects_internal"), ("table cache", S+"readers/ObjectDataReader.py: read_rows, read_objects")],
     [("cached table / id map", "what the reader remembers between calls", S+"readers/ObjectDataReader.py, CSVReader.py")],
     ["tables returned by the readers"])
prop("C04", "Inconsistent inputs are refused, never silently mixed",
     "A run whose parameter files do not list exactly the same objects, whose orbit file is not consistently one documented format with exactly its columns, or whose physical file lacks the main-filter magnitude or a colour of a requested filter ends with an error, never reports completion and leaves no detections behind. A chunk whose ephemeris times contradict the visit database (by most of a day or more) is refused likewise, leaving no detections of that chunk. A consistent population is never refused.",
     ["inputs", "configurations"],
     "All single and combined corruptions of the parameter, orbit and ephemeris tables, in any row and any chunk.",
     "Each unit test feeds one malformed file to one reader; that the run as a whole stops before writing is not tested.",
     [S+"readers/CombinedDataReader.py", S+"readers/OrbitAuxReader.py", S+"readers/EphemerisReader.py", S+"modules/PPGetMainFilterAndColourOffsets.py", S+"modules/PPMatchPointingToObservations.py", S+"sorcha.py", S+"des.py"],
     [("identifier comparison across files", S+"readers/CombinedDataReader.py: check_aux_object_ids"), ("orbit validation", S+"readers/OrbitAuxReader.py"), ("time cross-check", S+"modules/PPMatchPointingToObservations.py")],
     None, ["exit status", "log", "detections file"])
prop("C05", "Each detection carries its own visit's and its own object's data",
     "Every reported detection combines one candidate with the visit of the same identifier and with the parameters of the same object: filter, field centre, exposure, seeing and depth are that visit's, orbit and physical parameters are that object's, and the magnitude uses the object's absolute magnitude shifted by its own colour, and its own phase parameter, for that visit's filter. Candidates of visits outside the requested filters never appear, in whatever order the columns and the filters (after the main filter, which the configuration names first) are listed.",
     ["inputs", "configurations"],
     "All assignments of candidates to visits and filters, all orders of requested filters (main filter first) and of file columns, single phase parameters and per-filter ones.",
     "Unit tests check the merge and the colour offsets on one small table each; mismatched bindings under other orders or mixed filters are not sampled.",
     [S+"modules/PPMatchPointingToObservations.py", S+"modules/PPReadPointingDatabase.py", S+"modules/PPApplyColourOffsets.py", S+"modules/PPCalculateApparentMagnitude.py", S+"modules/PPCalculateApparentMagnitudeInFilter.py", S+"modules/PPGetMainFilterAndColourOffsets.py", S+"readers/CombinedDataReader.py"],
     [("join on visit identifier", S+"modules/PPMatchPointingToObservations.py"), ("colour and phase selection", S+"modules/PPApplyColourOffsets.py"), ("join on object identifier", S+"readers/CombinedDataReader.py")],
     None, ["detections file (all columns)"])
prop("C06", "The detection cuts keep exactly the candidates within every enabled limit",
     "A candidate is reported exactly when it passes every enabled cut and none other: signal-to-noise above the limit (and above 2 where randomization applies its default cut), measured magnitude brighter than the magnitude limit, point-source magnitude not brighter than the saturation limit of its own filter, inside the circular field, and, for the detection efficiency, probability at its own limiting magnitude at least the draw. Passing rows keep their values, and a cut that is not configured removes nothing.",
     ["inputs", "configurations"],
     "All tables of candidates and all combinations of enabled cuts and limits, including filters in any order, all rows cut, and rows cut by an earlier stage.",
     "Each cut has a unit test on a few rows; combinations in the pipeline, index handling after an earlier cut, and per-filter limits in other orders are not settled by them.",
     [S+"sorcha.py", S+"des.py", S+"modules/PPSNRLimit.py", S+"modules/PPMagnitudeLimit.py", S+"modules/PPBrightLimit.py", S+"modules/PPApplyFOVFilter.py", S+"modules/PPFadingFunctionFilter.py", S+"modules/PPDropObservations.py", S+"modules/PPDetectionProbability.py", S+"modules/DESFadingFunctionFilter.py", S+"modules/DESDetectionProbability.py", S+"modules/PPRandomizeMeasurements.py"],
     [("filter cascade", S+"sorcha.py: runLSSTSimulation; "+S+"des.py: runDESSimulation"), ("individual cuts", S+"modules/PP*Limit.py, PPApplyFOVFilter.py, *FadingFunctionFilter.py")],
     None, ["detections file"])
prop("C07", "Switching an effect off leaves what it would change untouched",
     "With randomization off, measured positions and magnitudes equal the true ones; with trailing losses off, the point-source magnitude equals the trailed one; with vignetting off, the depth at the source equals the visit's depth. Turning any one of these effects on changes only the quantities it governs: true positions, true trailed magnitudes, visit data and object data stay identical, trailing losses and vignetting never make a source easier to detect.",
     ["configurations", "inputs"],
     "All eight combinations of the three switches, all candidate tables, both settings of the default signal-to-noise cut.",
     "The tests exercise each effect function alone; they do not compare runs under different switch settings.",
     [S+"sorcha.py", S+"des.py", S+"modules/PPTrailingLoss.py", S+"modules/PPVignetting.py", S+"modules/PPRandomizeMeasurements.py", S+"modules/PPAddUncertainties.py"],
     [("switch handling", S+"sorcha.py: runLSSTSimulation"), ("true/measured columns", S+"modules/PPRandomizeMeasurements.py: randomizeAstrometryAndPhotometry")],
     None, ["detections file (all columns)"])
prop("C08", "Random stages are reproducible, independent and correctly weighted",
     "Two runs with the same seed and inputs give identical output, and different seeds different draws. Each random stage draws from its own stream (linking draws depend on the seed and the object's own detections), so enabling, disabling or re-parameterising one stage does not change the draws of another, and requesting a stream again continues it rather than restarting it. Thinning by fill factor or detection efficiency keeps each candidate independently with exactly the stated probability, so probability 0 keeps none and 1 keeps all.",
     ["inputs", "configurations", "histories"],
     "All seeds, all sets of enabled random stages and all orders in which streams are requested; many-candidate populations for the weights.",
     "Tests use one fixed seed and a fixed generator per function; stream independence and reuse across chunks are not tested.",
     [S+"utilities/sorchaModuleRNG.py", S+"utilities/sorchaArguments.py", S+"modules/PPRandomizeMeasurements.py", S+"modules/PPApplyFOVFilter.py", S+"modules/PPDropObservations.py", S+"modules/PPDetectionEfficiency.py", S+"modules/PPMiniDifi.py"],
     [("per-stage generators", S+"utilities/sorchaModuleRNG.py: PerModuleRNG"), ("seed from arguments or environment", S+"utilities/sorchaArguments.py, src/sorcha_cmdline/run.py")],
     [("stream table", "stage name to generator", S+"utilities/sorchaModuleRNG.py _rngs")], ["detections file", "generator states"])
prop("C09", "An object is linked exactly when it has enough tracklets in the window",
     "A night holds a tracklet when it has at least the required number of detections of the object containing a pair that is separated by more than the minimum distance and less than the maximum time, with no fewer than the required number of detections from one to the other in time order (when one detection is required, it suffices by itself). With linking efficiency 1, an object is linked exactly when the required number of distinct tracklet nights falls within some window of the configured number of nights; the linking date is the last night of the earliest such window. Nights run from local noon to local noon; visits lie within nights.",
     ["inputs", "configurations"],
     "All detection histories of an object and all settings of the five linking parameters and the night start.",
     "Tests compare against stored results for one history and a few hand-made ones; the windows, boundaries and degenerate settings are not enumerated.",
     [S+"modules/PPMiniDifi.py", S+"modules/PPLinkingFilter.py"],
     [("tracklet test", S+"modules/PPMiniDifi.py: hasTracklet, trackletsInNights"), ("window search", S+"modules/PPMiniDifi.py: discoveryOpportunities, linkObject")],
     None, ["linked flag and date in the detections"])
prop("C10", "Linking keeps or annotates whole objects and nothing else",
     "With linking on and unlinked objects dropped, the output holds all surviving detections of every linked object and none of any other; with unlinked objects kept, it holds every detection, each flagged with its own object's verdict and date. Linking alters no other value, the verdict does not depend on other objects, on row order or on identifier length or spelling, efficiency 0 links none, and an intermediate efficiency links each tracklet window independently at that rate.",
     ["inputs", "configurations"],
     "All sets of objects mixed in one chunk, any row order, identifiers of any length sharing prefixes, both drop settings, any efficiency.",
     "Tests use one table with one drop setting; the mixing of several objects with look-alike identifiers is not sampled.",
     [S+"modules/PPLinkingFilter.py", S+"modules/PPMiniDifi.py", S+"sorcha.py"],
     [("join of the verdict to the rows", S+"modules/PPLinkingFilter.py"), ("grouping by object", S+"modules/PPMiniDifi.py: linkObservations")],
     None, ["detections file"])
prop("C11", "DES discovery keeps exactly the objects meeting the published criterion",
     "An object is kept exactly when its detections fall on at least nine distinct nights, or on at least seven with an arc longer than half a year after dropping its first or last night (whichever leaves less) and with three successive nights spaced by less than 60 days (90 days when it is never closer than 50 au). All detections of a kept object are reported, in time order, and none of any other.",
     ["inputs"],
     "All detection histories, mixed objects in one chunk and any row order.",
     "Tests check each numerical helper on hand-made lists and the filter on one table.",
     [S+"modules/DESDiscoveryFilter.py", S+"des.py"],
     [("distinct nights, arc and triplet", S+"modules/DESDiscoveryFilter.py: compute_nunique, compute_arccut, compute_triplet"), ("object mask", S+"modules/DESDiscoveryFilter.py: DESDiscoveryFilter")],
     None, ["detections file"])
prop("C12", "DES distance cuts select objects, motion cuts select detections",
     "With a distance range set, an object is kept with all its detections exactly when at least one of its surviving detections lies strictly within the range; with a motion range set, a detection is kept exactly when its total on-sky rate lies strictly within the range. Distance is applied before motion and both before discovery, either may be absent, and a zero bound is a bound.",
     ["inputs", "configurations"],
     "All populations, rates of either sign and any bounds, alone and combined with the other DES stages.",
     "Two unit tests on a few rows; order of application and interaction with discovery are untested.",
     [S+"modules/PPDistanceandMotionCuts.py", S+"des.py", S+"utilities/sorchaConfigs.py"],
     [("range cuts", S+"modules/PPDistanceandMotionCuts.py"), ("order of stages", S+"des.py: runDESSimulation")],
     None, ["detections file"])
prop("C13", "The detections file holds exactly the detections, in every format",
     "After a run the detections file holds each surviving detection of every chunk exactly once with one header and the requested columns, and CSV, SQLite and HDF5 files hold the same rows and values whatever the chunk boundaries and lengths of text values. Requested decimal places, including zero, round exactly the position or magnitude columns present and nothing else.",
     ["inputs", "configurations", "histories"],
     "All sequences of chunk outputs (including empty ones and identifiers growing in length), all column selections, formats and decimals.",
     "Unit tests write one table once per format; appends over several chunks with differing text lengths are not covered.",
     [S+"modules/PPOutput.py", S+"sorcha.py", S+"des.py"],
     [("append writers", S+"modules/PPOutput.py: PPOutWriteCSV, PPOutWriteHDF5, PPOutWriteSqlite3"), ("column choice and rounding", S+"modules/PPOutput.py: PPWriteOutput"), ("index after the last chunk", S+"modules/PPOutput.py: PPIndexSQLDatabase")],
     None, ["detections file"])
prop("C14", "Existing results are never overwritten or mixed without permission",
     "If a detections, statistics or ephemeris output of the requested name already exists and overwriting was not requested, the command refuses before changing any file. With overwriting requested, the finished outputs hold only rows of the new run, whichever formats earlier runs with the same name used, no two outputs of one run are mixed in one csv file, and no file other than the named outputs (the chosen stem with any extension counts as named) is touched, never an input; other commands that write files follow the same rule, but for combining results, which rebuilds its own tables by design (C21), and sorcha cite, whose text is always the same.",
     ["histories", "configurations"],
     "All histories of runs with the same or similarly spelled names, formats and flags over one directory, and all sets of files present beforehand.",
     "The command-line parser test covers one file at a time; sequences of runs and look-alike names are not tested.",
     [S+"utilities/sorcha_copy_demo_files.py", S+"utilities/sorchaCommandLineParser.py", "src/sorcha_cmdline/run.py", "src/sorcha_cmdline/outputs.py", "src/sorcha_cmdline/init.py", S+"utilities/fileAccessUtils.py", S+"utilities/sorcha_copy_configs.py"],
     [("existence check and removal", S+"utilities/sorchaCommandLineParser.py: warn_or_remove_file")],
     [("output directory", "files present before a run", "the directory given by --outfile")], ["directory contents before and after"])
prop("C15", "The statistics table summarises exactly the reported detections",
     "For every object and filter with reported detections the statistics file has exactly one row whose count, minimum, maximum and median magnitude and phase range, and (with linking on) linked flag and date are those of the reported detections; no row claims detections that were not reported (a row with count zero claims nothing). This holds for any chunking and both settings of dropping unlinked objects.",
     ["inputs", "configurations"],
     "All output tables and chunkings, with and without linking.",
     "One unit test with one table; agreement with the detections file of the same run is not tested.",
     [S+"modules/PPStats.py", S+"sorcha.py", S+"des.py"],
     [("group-by summary", S+"modules/PPStats.py: stats")],
     None, ["statistics file", "detections file"])
prop("C16", "A configuration is accepted exactly when it is valid, and means what it says",
     "A configuration is refused with an explanatory exit before any simulation when a mandatory key is missing, a value has the wrong type or lies outside its allowed set or range, or keys contradict each other, the survey or the camera model. Every other configuration is accepted, with optional sections off when absent, documented defaults filled in and the given values kept; it is never answered by an internal failure. (Where the documentation does not say whether a value is valid, either verdict stands.)",
     ["configurations"],
     "All combinations of present, absent, in-range, boundary and out-of-range values of the keys of every section, for both surveys.",
     "Tests change one key at a time from one valid configuration; interactions, boundaries and the error paths themselves are only partly reached.",
     [S+"utilities/sorchaConfigs.py", "src/sorcha_cmdline/run.py"],
     [("section validators", S+"utilities/sorchaConfigs.py: *Configs dataclasses"), ("section reader", S+"utilities/sorchaConfigs.py: sorchaConfigs")],
     None, ["exit status", "configuration object"])
prop("C17", "Generated ephemerides miss no object inside the search circle",
     "For every visit, in whatever time order the visits come, the ephemeris generator reports every object whose light-time-corrected direction lies within the field of view plus buffer of the field centre, and no other, exactly once (at the very rim, closer than the interpolation between pickets can resolve, either answer is right). The choice of picket length, sky-pixel resolution or interpolation intervals does not change the result, and each row carries the object's own direction, rates, distances and visit.",
     ["inputs", "schedules", "configurations"],
     "All visit sequences (ordered, reversed, interleaved, with long gaps), all smooth object motions, picket lengths, pixel orders and field sizes.",
     "The pixel and picket tests are excluded (they need downloads) and the remaining ones check geometry helpers; the state kept between visits is not tested at all.",
     [S+"ephemeris/simulation_constants.py", S+"modules/PPReadPointingDatabase.py", S+"ephemeris/pixel_dict.py", S+"ephemeris/simulation_driver.py", S+"ephemeris/simulation_setup.py", S+"ephemeris/simulation_geometry.py"],
     [("pickets and pixel map", S+"ephemeris/pixel_dict.py: PixelDict"), ("visit loop", S+"ephemeris/simulation_driver.py: create_ephemeris")],
     [("picket triple", "three epochs and the cached directions at them", S+"ephemeris/pixel_dict.py tm, t0, tp")], ["returned ephemeris table"])
prop("C18", "An exported ephemeris can be read back to the same detections",
     "When a run generates ephemerides and also writes them to a file, the file holds exactly the rows the run used, over all chunks, in the chosen format, and a run reading that file with otherwise the same settings reports the same detections.",
     ["inputs", "configurations"],
     "All populations, chunk sizes and the three ephemeris formats, including chunks without candidates.",
     "No runnable test writes an ephemeris file from a run and reads it back.",
     [S+"ephemeris/simulation_driver.py", S+"readers/EphemerisReader.py", S+"modules/PPOutput.py", S+"sorcha.py"],
     [("ephemeris export", S+"ephemeris/simulation_driver.py: create_ephemeris, write_out_ephemeris_file"), ("import", S+"readers/EphemerisReader.py")],
     None, ["ephemeris file", "detections file"])
prop("C19", "Faint-object culling never removes a detectable object",
     "With culling on, an object is left out of ephemeris generation only if its perihelion is at least 2 au and its brightest possible apparent magnitude is fainter than the deepest visit by more than 2 magnitudes in every requested filter. Kept objects keep all their data and order, so an object that culling removes is never reported by the same run with culling off (absent brightening beyond that margin).",
     ["inputs", "configurations"],
     "All populations, orbit formats, filter sets and visit depths, including filters without any visit and objects brightening through activity or light curves.",
     "The unit test uses one table with one orbit format and no interplay with the pipeline.",
     [S+"modules/PPFaintObjectCullingFilter.py", S+"sorcha.py", S+"des.py"],
     [("culling decision", S+"modules/PPFaintObjectCullingFilter.py")],
     None, ["returned object table", "detections file"])
prop("C20", "A log reports completion exactly when the run completed",
     "The completion message is the last line of a run's log exactly when the run processed every chunk and wrote all its output; a run that stops at any point leaves a log without it. The log checker reports every log under a directory exactly once (in its report file when some run failed), as successful exactly when it ends with the completion message and otherwise with its last line, whatever other logs, empty logs or earlier runs are present.",
     ["crash_points", "histories", "inputs"],
     "All points at which a stage of either survey's run can fail, and all sets and contents of log files.",
     "The checker is tested on one directory of sample logs; runs that fail at each stage are not tested.",
     [S+"utilities/check_output_logs.py", S+"utilities/sorchaGetLogger.py", S+"sorcha.py", S+"des.py", "src/sorcha_cmdline/outputs.py"],
     [("completion message", S+"sorcha.py, "+S+"des.py (last statement)"), ("classification", S+"utilities/check_output_logs.py")],
     None, ["log file", "checker report"])
prop("C21", "The combined results database holds every row of every run once",
     "Combining the outputs of several runs into one database yields exactly the rows of the chosen result databases, and of the parameter and orbit files of those runs, each exactly once, in separate tables. Other databases, the combined database itself and earlier contents of its result table do not leak in, so that repeating the command gives the same tables. Result databases whose columns differ are refused.",
     ["inputs", "histories"],
     "All sets of result files, name stems, locations of the combined file inside or outside the results directory, and repeated invocations.",
     "One test combines two prepared runs into a fresh file.",
     [S+"utilities/createResultsSQLDatabase.py", "src/sorcha_cmdline/outputs.py"],
     [("result table", S+"utilities/createResultsSQLDatabase.py: create_results_table"), ("input tables", S+"utilities/createResultsSQLDatabase.py: create_inputs_table")],
     None, ["combined database"])
prop("C22", "The camera footprint keeps a source exactly when it falls on a detector",
     "With a detector layout, a source is kept exactly when its position, seen from its own visit's centre and rotation, lies on some detector and not within the edge threshold of its border, and it is labelled with the identifier of a detector that contains it. The answer does not depend on the order of sources, of detectors or of corner points in the layout file, and no source is kept twice.",
     ["inputs", "configurations"],
     "All source positions, visit centres (including both poles and the 0/360 meridian), rotations, layouts and edge thresholds.",
     "Tests compare counts for one layout at one pointing.",
     [S+"modules/PPFootprintFilter.py", S+"modules/PPApplyFOVFilter.py"],
     [("layout reading and corner sorting", S+"modules/PPFootprintFilter.py: Footprint, Detector"), ("membership", S+"modules/PPFootprintFilter.py: Detector.ison, Footprint.applyFootprint")],
     None, ["detections file: rows and detector label"])
prop("C23", "Per-visit detectors: a source is kept exactly when one of its visit covers it",
     "With per-visit detector outlines, a source is kept exactly when it lies inside a detector outline recorded for its own visit, and it is labelled with that detector's identifier and limiting magnitude. The answer does not depend on the other sources, on row order or on where the field lies on the sky, including across right ascension zero.",
     ["inputs"],
     "All visits, outline sets (including visits without outlines) and source positions.",
     "One test with one prepared database and few sources per visit.",
     [S+"modules/PPVisitsFootprintFilter.py", S+"modules/PPApplyFOVFilter.py"],
     [("outline query per visit", S+"modules/PPVisitsFootprintFilter.py: PPVisitsFootprint")],
     None, ["detections file: rows, detector label, limiting magnitude"])
prop("C24", "Brightness models: registered once, looked up by name, applied as chosen",
     "Every registered light-curve or activity model is found under its own unique name; registering a name twice is refused and leaves the first registration in place, and a later scan adds new models without replacing existing ones. A run applies exactly the chosen model, once, to exactly the candidates of each object with that object's parameters; with no model chosen magnitudes are unaffected, and an unknown name is refused.",
     ["histories", "inputs", "configurations"],
     "All sequences of class definitions, registrations and scans, and all runs with and without each kind of model.",
     "Tests register one model in each registry; sequences and their effect on a run are not explored.",
     [S+"lightcurves/base_lightcurve.py", S+"activity/base_activity.py", S+"lightcurves/identity_lightcurve.py", S+"activity/identity_activity.py", S+"lightcurves/lightcurve_registration.py", S+"activity/activity_registration.py", S+"modules/PPCalculateApparentMagnitudeInFilter.py", S+"modules/PPCalculateSimpleCometaryMagnitude.py"],
     [("registries", S+"lightcurves/lightcurve_registration.py, "+S+"activity/activity_registration.py"), ("application", S+"modules/PPCalculateApparentMagnitudeInFilter.py")],
     [("registry", "name to class", "LC_METHODS, CA_METHODS")], ["registry contents", "detections file"])
prop("C25", "Auxiliary data files: overrides respected, only missing files fetched",
     "A replaced auxiliary file name is used everywhere the default would be, and it is fetched from the address given with it or not at all; an address without a name is refused. A run, or sorcha bootstrap, fetches the files that are missing, each once and from its own address; a file already present is never fetched again or overwritten (bootstrap -f replaces the default files, and bootstrap rebuilds the default kernel list and unpacks the observatory list). An operation that completes has all its files; one whose download fails says so (bootstrap lists what is missing) and leaves no kernel list without its kernels. A kernel list written by sorcha makes SPICE load every required kernel exactly once in precision order, however long or odd (quotes, blanks) the paths are, within what SPICE can take (255 characters, ASCII); a list already there is used as it is.",
     ["configurations", "inputs"],
     "All subsets of overridden names and addresses, all sets of files present, all directory path lengths.",
     "Tests cover one long path and a few overrides.",
     [S+"ephemeris/simulation_data_files.py", S+"utilities/sorchaConfigs.py", S+"utilities/generate_meta_kernel.py", S+"utilities/retrieve_ephemeris_data_files.py", S+"ephemeris/simulation_setup.py"],
     [("file tables", S+"utilities/sorchaConfigs.py: auxiliaryConfigs"), ("kernel list", S+"utilities/generate_meta_kernel.py: build_meta_kernel_file"), ("retrieval", S+"utilities/retrieve_ephemeris_data_files.py")],
     None, ["file tables", "kernel file", "recorded fetches"])
prop("C26", "Orbit formats: the same motion gives the same ephemeris",
     "The same motion given in any of the six orbit formats (cometary, Keplerian, Cartesian, heliocentric or barycentric), for any kind of orbit the format can hold (circular, elliptic, near-parabolic, parabolic, hyperbolic; any orientation), at any epoch (each object its own, as MJD or JD), gives the same generated ephemeris, whatever the other objects of the file and however it is divided into chunks. Orbits a format cannot hold are refused.",
     ["inputs"],
     "All orbits, epochs and mixtures of objects in a file.",
     "Tests convert a handful of orbits and compare with stored values.",
     [S+"ephemeris/orbit_conversion_utilities.py", S+"ephemeris/simulation_parsing.py", S+"ephemeris/simulation_setup.py", S+"readers/OrbitAuxReader.py"],
     [("conversion", S+"ephemeris/orbit_conversion_utilities.py: universal_cartesian"), ("rows to states", S+"ephemeris/simulation_parsing.py: parse_orbit_row"), ("validation", S+"readers/OrbitAuxReader.py")],
     [("state", "barycentric equatorial position and velocity at the epoch", "parse_orbit_row")], ["ephemeris file: rows and their quantities"])
prop("C27", "The command line does what it says, or says that it did not",
     "sorcha VERB starts that verb's program with exactly the arguments given after it, in order, with the caller's input, directory and environment, and ends with its exit status (an error status if it was ended by a signal); for a missing or unknown verb nothing is started. sorcha run takes its options in any order and spelling, each one sets its own setting and no other, those not given have their defaults, SORCHA_SEED is the seed of the run, and the simulation of the chosen survey is started exactly once; an invocation that lacks something required (a required option or file, the ephemeris file for external ephemerides, the parameters a light-curve or activity model needs, the visits database exactly with the per-visit camera, a survey it can simulate) starts nothing and ends with an error status. The other commands too end with an error status when they refuse; sorcha cite writes what it prints.",
     ["inputs", "configurations"],
     "All words after a verb; all sets, orders and spellings of options, with any files missing and any relevant settings of the configuration.",
     "The verb dispatcher and most refusals of sorcha run have no test; tests call the parser with one fixed set of options.",
     ["src/sorcha_cmdline/main.py", "src/sorcha_cmdline/run.py", "src/sorcha_cmdline/sorchaargumentparser.py", "src/sorcha_cmdline/cite.py", "src/sorcha_cmdline/demo.py", "src/sorcha_cmdline/init.py", "src/sorcha_cmdline/outputs.py", "src/sorcha_cmdline/bootstrap.py",
      S+"utilities/sorchaCommandLineParser.py", S+"utilities/sorchaArguments.py", S+"utilities/sorcha_demo_command.py", S+"utilities/citation_text.py"],
     [("dispatch", "src/sorcha_cmdline/main.py: main"), ("options to settings", "src/sorcha_cmdline/run.py: main, execute; sorchaCommandLineParser")],
     [("settings", "what a simulation is started with", "sorchaArguments")], ["programs started, their arguments", "exit status", "settings of the simulation started"])
prop("C28", "Brightness, losses and uncertainties follow the documented laws",
     "Every candidate's apparent magnitude is its absolute magnitude in the visit's filter (that of the main filter plus its own colour) plus 5 log10 of both distances in AU plus the chosen phase curve (none, linear, HG, HG12, HG1G2) with the parameters that hold for that filter. Its detection trailing loss is that of Veres & Chesley for its speed (whatever its direction), the visit's exposure and effective seeing; its limiting magnitude is the visit's minus the vignetting at its angular distance from the field centre, anywhere on the sky. For the LSST its magnitude uncertainties and the uncertainty of its position follow the documented noise law (0.039, 5 sigma at the limit, 10 mas floor, 0.6 FWHM/SNR) from that magnitude, that limit and the geometric seeing, the trailed source counting its trail. None of these depends on anything else: other objects, order, chunk size, time.",
     ["inputs", "configurations"],
     "All objects, geometries, motions, positions, visits and phase parameters, one circumstance changing at a time or all at once.",
     "Tests compare a few stored numbers for one or two rows of each formula, each module called alone.",
     [S+"modules/PPCalculateApparentMagnitude.py", S+"modules/PPCalculateApparentMagnitudeInFilter.py", S+"modules/PPApplyColourOffsets.py", S+"modules/PPTrailingLoss.py", S+"modules/PPVignetting.py", S+"modules/PPAddUncertainties.py", S+"sorcha.py", S+"des.py"],
     [("magnitude", S+"modules/PPCalculateApparentMagnitudeInFilter.py"), ("colours and phase parameters", S+"modules/PPApplyColourOffsets.py"), ("losses", S+"modules/PPTrailingLoss.py, PPVignetting.py"), ("noise", S+"modules/PPAddUncertainties.py")],
     [("candidate", "one object in one visit with everything measured of it", "observations table")], ["magnitude columns", "limiting magnitude", "uncertainty columns"])

for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    s = p["statement"]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
