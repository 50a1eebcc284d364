"""Writes /verif/properties.jsonl from the table below (one edit point)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, symbols=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=["CHECLabPy/" + f for f in files]))
    if symbols:
        d["anchors"]["symbols"] = symbols
    P.append(d)
R = "waveform_reducers/"
p("C01", "Processing an event never alters the waveforms it was given",
  "Passing an event's waveforms through time calibration, baseline subtraction, the reducer chain, any single reducer or the waveform-shifting helper leaves the array that was passed in byte-for-byte unchanged, whichever columns are enabled. Every reducer and every later processing step therefore sees the same samples.",
  ["inputs", "configurations"], "every event, every subset of enabled columns, every order of reducers",
  "No stable test runs a reducer at all; a test could only sample some column combinations and would have to compare the input after each.",
  ["core/reducer.py", "core/chain.py", R, "calib/time_calibrator.py", "utils/waveform.py", "scripts/extract_dl1.py"])
p("C02", "A reducer's results depend only on the event being processed",
  "The values a reducer reports for an event are a function of that event's waveforms and the reducer's construction arguments only: nothing computed for an earlier event, and nothing left over from one, can influence them. This holds for every order of events and also when some events take an unusual path (no pulse, pulse at the edge, no flasher).",
  ["histories", "inputs"], "every sequence of events processed by one reducer instance",
  "A test feeds one or two events; stale state only shows when a later event skips the assignment that an earlier one made.",
  ["core/reducer.py", "core/chain.py", R])
p("C03", "Each event's output holds exactly the enabled columns",
  "For every configuration, processing an event returns one entry for every enabled column of every available reducer, computed by that column from that event, and no entry for any other column. A column that is not enabled is not evaluated (other than for the optional diagnostic plot), and a reducer with no enabled column is neither constructed nor run.",
  ["configurations", "inputs"], "every assignment of on/off to the columns, every event",
  "There are 2^40 on/off assignments; the tests try a handful on toy reducers and are not among the stable ones.",
  ["core/reducer.py", "core/chain.py", "core/__init__.py"])
p("C04", "Column and setting choices: arguments beat file beats built-in defaults",
  "When the chain is built, an explicit argument always wins over the configuration file, and the file over the built-in settings; without a file the built-in column defaults apply, and with a file only what the file (or an argument) names is enabled. The configuration recorded with the output is the one that was actually used to build the reducers, and building a chain never changes the built-in defaults.",
  ["configurations"], "every combination of arguments, file contents (also an empty file) and defaults",
  "Precedence must hold key by key for every combination; tests would sample a few keys.",
  ["core/chain.py", "core/reducer.py"])
p("C05", "Column names are unique and every column list agrees with them",
  "No two reducers define a column of the same name, every name in the built-in default table is an existing column, and the generated configuration template lists every available column exactly once with the activation the chain would use by default. Using the generated template therefore reproduces the default behaviour.",
  ["programs", "configurations"], "every column of every reducer, every entry of the default table",
  "Agreement between tables kept in different files is a whole-program fact that no single-column test touches.",
  ["core/reducer.py", "core/chain.py", R, "scripts/generate_dl1_config.py"])
p("C06", "Turning a column on or off never changes another column's values",
  "The value reported for a column is the same whether any other column is enabled or disabled. In particular, evaluating a column does not change what another column returns, and the name of an on/off switch is never also read as a numerical setting.",
  ["configurations"], "every pair of columns, every on/off assignment, every evaluation order",
  "Interaction between two switches needs a differential run over all pairs; no test does it.",
  ["core/reducer.py", "core/chain.py", R])
p("C07", "Every column is one value per pixel or one value per event",
  "For a waveform array of P pixels by S samples, every column of every reducer evaluates to an array with exactly one value per pixel, in pixel order, or to a single value for the whole event. This is true for all P and S and never depends on P and S being related.",
  ["inputs"], "every number of pixels and samples, every column",
  "Tests use one camera size; an axis mistake can hide when shapes coincide or broadcast.",
  [R, "core/reducer.py"])
p("C08", "Pulse extraction only reads samples inside the waveform",
  "With the built-in window settings, for every event with at least 20 samples and wherever the pulse lies (first and last sample included), the pulse-time, pulse-shape and time-correction kernels only access samples inside the waveform of the pixel they are working on, and never divide by zero: neither the distance between two samples nor the difference between two sample values they divide by can be zero. The windows that the reducers place around the average pulse, at a fixed number of samples before and after it, lie wholly inside the waveform, so that none is cut short or wraps around to the other end.",
  ["inputs"], "every waveform content, every peak position, every time correction value",
  "Compiled kernels do no bounds checking, so a stray read returns garbage instead of failing; a negative index or a window beyond the end is silently accepted by numpy. Tests would need the exact waveform that reaches the edge.",
  [R + "timing.py", R + "cross_correlation.py", R + "average_wf.py", R + "saturation.py", R + "common.py", "calib/time_calibrator.py"])
p("C09", "Event information stays attached to waveforms and reaches the output",
  "An array derived from an event's waveforms (view, slice, arithmetic result, copy) carries the same event number, calibration flag, first cell, stale/missing flags, timestamps and true charge as the waveforms it came from. Readers fill each of these from the corresponding field of the raw event, and the DL1 row of each pixel records the ones belonging to its own event.",
  ["inputs", "programs"], "every event, every chain of array operations, every field",
  "Only the fields a test happens to look at after the operation it happens to do are checked; readers need detector libraries that no test has.",
  ["core/io/waveform.py", "core/io/tio.py", "core/io/simtel.py", "scripts/extract_dl1.py"])
p("C10", "Indexing, slicing and iterating a waveform file agree",
  "For a file of N events, index i in 0..N-1 gives event i, a negative index -k gives event N-k, anything outside raises IndexError, and slices, lists and plain iteration give exactly the events that the corresponding single indices give, in that order. The number of events is the file's, reduced to the requested maximum if that is smaller.",
  ["inputs"], "every file length, index, slice, list and requested maximum",
  "The bound checks matter for boundary indices of every file length; the reader tests need files that are not in the repository.",
  ["core/io/waveform.py", "core/io/tio.py"])
p("C11", "Module and superpixel queries reject slots that do not exist",
  "Asking the raw-file (TARGET) reader or the DL1 reader for the serial number, temperatures, DAC or HV state of a module (or superpixel) numbered at or beyond the number of modules (or superpixels per module) raises IndexError before anything is looked up, and every valid number returns the value stored for exactly that module and superpixel. The raw-file reader and the DL1 reader apply the same rule.",
  ["inputs"], "every module and superpixel number, every camera size, every query",
  "Needs hardware libraries or DL1 files; boundary numbers of each query are never exercised.",
  ["core/io/tio.py", "core/io/dl1_reader.py"])
p("C12", "Everything handed to the HDF5 writer is in the file when it is finished",
  "Every data frame appended or written, the mapping and all metadata given to a writer are in the file after the writer is finished, each table's rows in the order they were appended, however many frames were buffered, however many tables are interleaved and whenever the buffer was flushed in between. The recorded byte counts cover everything written, and leaving the writer's context always finishes and closes the file.",
  ["histories", "inputs"], "every sequence of append/write/metadata calls, every frame size relative to the buffer limit",
  "The flush only happens beyond 0.5 GB, which no test reaches; a loss at the boundary needs a specific sequence.",
  ["core/io/hdf5_writer.py", "scripts/extract_dl1.py"])
p("C13", "Appending to an existing file keeps what it already held",
  "Opening an existing file for appending keeps all its tables, rows and metadata: new rows are added after the old ones, new metadata entries are merged over the old ones of the same name, and entries that are not given again survive. The recorded sizes afterwards account for both the old and the new rows.",
  ["histories"], "every existing file, every sequence of appends and metadata updates, repeated re-opening",
  "Needs several open/append/close rounds with different keys; the only test needs a file that is not in the repository.",
  ["core/io/hdf5_appender.py"])
p("C14", "Reading a file never changes it and never silently loads too much",
  "A reader opens the file without permission to change it and releases it when its context is left. Loading a whole table whose recorded size exceeds 8 GB without being forced raises MemoryError before any data is read, an unknown table or metadata name raises KeyError, any table is readable whatever kinds of metadata are attached, and iterating in chunks always uses a positive whole number of rows and yields every chunk.",
  ["inputs", "configurations"], "every table size around the limit, every key, every attached metadata",
  "An 8 GB table (or a 2 GB one for the chunk computation) is out of reach of a test.",
  ["core/io/hdf5_reader.py", "core/io/dl1_reader.py"])
p("C15", "DL1 event access returns exactly the rows of that event",
  "In a DL1 file with P pixels per event, the n-th stored event is exactly rows nP up to (n+1)P, so iterating over events yields every row once and in order, and selecting an event number returns the rows stored under that number or raises IndexError. Selecting a list of event numbers yields exactly the stored events in that list.",
  ["inputs"], "every number of events and pixels, every event number (also with skipped events)",
  "Off-by-one errors only show at particular event positions or after skipped events; no DL1 file is in the repository.",
  ["core/io/dl1_reader.py"])
p("C16", "DL1 extraction stores or counts every event exactly once, never over its input",
  "Every event read from the input is either skipped because it is stale or has missing packets, and counted as skipped, or its pixels are stored once and it is counted as processed; the recorded counts and start/end times are those of this run's stored events. The output never takes the path of the input file, and one explicit output path is never used for several inputs.",
  ["histories", "inputs", "fault_sequences"], "every mixture of good, stale and incomplete events, every input file name",
  "Needs real raw files with damaged events; tests have none.",
  ["scripts/extract_dl1.py"])
p("C17", "Readers and writers agree on every metadata name",
  "Every metadata entry, lookup name and mapping attribute that a reader, plot or analysis routine looks up in a file or mapping is one that the corresponding writer stores, under the same table, name and key format. This covers DL1 files (run metadata, per-module and per-superpixel tables), SPE files, camera mappings and the packaged calibration tables.",
  ["programs"], "every lookup site and every producing site in the package",
  "Producer and consumer live in different files and need detector files to run together.",
  ["core/io/dl1_reader.py", "scripts/extract_dl1.py", "scripts/extract_spe.py", "scripts/plot_spe.py", "utils/mapping.py", "plotting/camera.py", "calib/"])
p("C18", "Baseline subtraction is per pixel over exactly the last N events",
  "The baseline subtracted from an event is, for each pixel, the mean of the first samples of that same pixel over the last N events including the current one (before N events were processed, the remaining places are those of the first N events of the file). The subtracted result is the event minus its own pixel's baseline for every sample, and subtracting an event enters it into the average exactly once.",
  ["histories", "inputs"], "every sequence of events, every N and number of baseline samples",
  "The rolling window only wraps after N events; tests do not run it.",
  ["utils/waveform.py", "scripts/extract_dl1.py"])
p("C19", "Fit parameters keep one position in every table",
  "For any list of spectrum parameters and any number of illuminations, the ordered list of fit parameters, the starting values/limits/fixed flags given to the minimiser and the per-illumination position lookup describe the same parameters: shared parameters have one position seen by every illumination, per-illumination parameters have one position each, and no two parameters share a position.",
  ["inputs"], "every parameter list, every shared/per-illumination split, every number of illuminations",
  "Tests use one list and two illuminations.",
  ["core/spectrum_fitter.py"])
p("C20", "Changed fit parameters take effect at the next fit",
  "After starting values, limits or fixed flags are changed through any public route (loading a configuration file, updating the collection, adopting the previous fit result), the next fit uses the changed values. No fit uses values that were replaced before it started.",
  ["histories"], "every sequence of load/update/adopt/fit operations",
  "The existing tests inspect the stored parameters, not what the next fit receives.",
  ["core/spectrum_fitter.py"])
p("C21", "Saving and loading a fitter configuration is lossless",
  "Every setting that saving writes (binning, range, and each parameter's starting value, limits and fixed flag) is restored by loading into the same setting of the same parameter, a setting absent from the file keeps its present value, and saving changes nothing in the fitter.",
  ["inputs", "histories"], "every fitter, every set of values, partial files and the empty file",
  "Tests sample one fitter and a few keys.",
  ["core/spectrum_fitter.py"])
p("C22", "Each spectrum model receives every parameter in its own place",
  "Every fitter evaluates its spectrum for illumination i with that illumination's parameter values, every named model argument receives the value of the parameter of the same name, and each illumination's histogram is compared with its own spectrum. The set of parameters a fitter declares is exactly the set its model consumes, in drawing the fitted curve as well as in fitting.",
  ["inputs", "configurations"], "every fitter, every number of illuminations, every parameter",
  "Tests use equal values for several parameters and two illuminations; a swap can go unnoticed within the tolerance.",
  ["spectrum_fitters/gentile.py", "spectrum_fitters/mapm.py", "core/spectrum_fitter.py"])
p("C23", "Each pixel's fit is its own and stored under its own number",
  "A fit's histogram, values and errors depend only on the charges given to that fit and the parameter settings, not on earlier fits. When many pixels are fitted, in sequence or in parallel worker processes and in whatever order they finish, row k of every stored table is the result for pixel k.",
  ["schedules", "histories"], "every completion order of the workers, every sequence of fits",
  "A test fits one spectrum; completion order depends on scheduling.",
  ["core/spectrum_fitter.py", "scripts/extract_spe.py"])
p("C24", "Merging pixel masks only adds masked pixels, saving loses none",
  "Merging a mask file keeps every pixel that was already masked and adds those of the file, category by category; loading without merging replaces them. Saved masks contain every category for every pixel so that loading the saved file gives the same masks, the latest file is chosen by natural order, and the combined mask is exactly the union of the three categories.",
  ["inputs", "histories"], "every set of mask files and merge order",
  "No test touches the masks.",
  ["calib/pixel_masks.py", "utils/files.py"])
p("C25", "Amplitude matching always outputs DACs within the safe range",
  "For any measured amplitudes and any number of iterations, every DAC value produced from starting values within 10..255 is again within 10..255, superpixels with bad HV are set to 255, a superpixel that has finished keeps its value for the rest of the pass, and the result always has the shape of the camera. Step stages only advance.",
  ["histories", "inputs"], "every sequence of measured amplitudes, every mask and starting value in range",
  "The limits are reached only after particular amplitude histories; the class has no tests and needs hardware files.",
  ["calib/amplitude_matcher.py"])
p("C26", "Charge resolution and statistics count every contribution exactly once",
  "The resolution or statistics reported at the end depend only on the multiset of contributions added: every contribution enters each sum and the count once, regardless of order, of how they are split over calls and of when intermediate amalgamations happen (resolutions leave out entries of zero true charge, for which they are undefined). Per-pixel and camera-wide results use the same formulas on sums over the corresponding groups, and adding does not change the arrays passed in.",
  ["histories", "inputs"], "every partition and order of contributions, every amalgamation point",
  "The intermediate amalgamation happens beyond 1 GB of contributions, which no test reaches.",
  ["utils/resolutions.py"])
p("C27", "Deriving a mapping or image never changes the one it came from",
  "Deriving the superpixel or module mapping leaves the pixel mapping and its metadata unchanged, and the derived mapping's metadata describes the derived layout (its own rows, columns and element size) while keeping all other entries; its rows hold the mean position of the pixels they stand for. Folding or unfolding an illumination profile, amplitude calibration, waveform calibration and waveform shifting return new arrays and leave their inputs unchanged.",
  ["inputs", "histories"], "every mapping, every sequence of derivations from the same mapping",
  "The effect shows in a later use of the same mapping object; no test derives twice.",
  ["utils/mapping.py", "calib/illumination_profile.py", "calib/amplitude_calibrator.py", "calib/waveform.py", "utils/waveform.py"])
p("C28", "Saving a figure creates its folder, writes the file and releases the figure",
  "Saving any plot first completes it, then creates the destination folder if necessary, writes the figure to the requested path and finally closes that same figure. No plotting class leaves a figure it created open after saving, so making many plots does not accumulate figures.",
  ["histories"], "every plotting class, every output path, any number of plots",
  "No test covers the plotting package.",
  ["plotting/", "scripts/plot_spe.py", "utils/files.py"])
p("C29", "Every name the package uses exists where it is looked up",
  "Every import, global name, module attribute, class member and keyword argument that some path of the package can use exists in the package itself or in the installed version of the library it comes from. No path can therefore end in an undefined-name, missing-attribute or unexpected-argument error caused by a name that is not there.",
  ["programs", "inputs"], "every path of every function of the package",
  "Error paths, plots and optional branches are not executed by the tests, and the stable tests cover two modules.",
  ["."])
p("C30", "Every plug-in class is found, once, and built by its own name",
  "Every concrete reducer, spectrum fitter and file reader that exists as a module of its package is offered to the chain, the fitter factory and the automatic file opening, at any depth of inheritance, exactly once per class name. Asking the factory for a name returns an instance of the class with that name, an unknown name raises KeyError, and opening a file picks a reader that declares itself compatible with it or raises an error.",
  ["programs", "inputs"], "every class in the plug-in packages, every requested name, every file",
  "Discovery is a property of all modules present, and fails silently by leaving one out.",
  ["core/__init__.py", "core/factory.py", "core/io/waveform.py", R + "__init__.py", "spectrum_fitters/__init__.py"])
p("C31", "Charge extraction is accurate",
  "The extracted charge is proportional to the true pulse charge with the documented calibration constant, for every pulse amplitude and time within the readout window, within the noise of the waveform.",
  ["inputs"], "every pulse amplitude, time and noise realisation",
  "Accuracy must hold over a continuum of pulses.", [R])
p("C32", "Spectrum models are normalised probability densities",
  "For all parameter values within their limits the modelled single-photoelectron spectrum is non-negative, finite and integrates to one within the documented truncation.",
  ["inputs"], "every parameter vector within its limits", "Tests evaluate one parameter point.",
  ["spectrum_fitters/gentile.py", "spectrum_fitters/mapm.py", "stats/pdf.py"])
p("C33", "Fits recover the parameters that generated a spectrum",
  "For a spectrum generated from parameters inside the limits with sufficient statistics, the fit converges to those parameters within the reported errors.",
  ["inputs"], "every parameter vector and sample", "Tests fit one or two spectra.",
  ["core/spectrum_fitter.py", "spectrum_fitters/"])
p("C34", "Running statistics equal the statistics of the whole sample",
  "Starting from count 0, mean 0 and m2 0, after any sequence of updates the count is the number of samples seen, the mean is their mean, and m2 is the sum of their squared deviations from that mean (so m2 / count is their variance), up to floating-point rounding: each update maps the exact statistics of n samples to those of n + 1.",
  ["histories", "inputs"], "every sample sequence", "The tests do not run it, and a wrong recurrence agrees with the right one on short or constant samples.", ["stats/welfords.py"])
p("C35", "Spectrum models are the documented sum of peaks",
  "For every parameter vector the modelled single-photoelectron spectrum is the sum over the number k of photo-electrons of weight(k) times a normal density at eped + k*spe with width sqrt(k*spe_sigma^2 + eped_sigma^2): k = 0 is the pedestal with weight exp(-lambda_), k runs up to at least 99, and the weights are the Poisson probabilities (MAPM) or the compound probabilities sum over j = 1..k of Poisson(j) * (1-opct)^j * opct^(k-j) * binom(k-1, j-1) (SiPM, Gentile). Terms are left out only when their weight is negligible (at most 1e-3), and the sum ends early only at a negligible weight smaller than one already seen, so never before the first significant peak, whatever the illumination. The building blocks (binom, poisson, normal_pdf, xlogy, poisson_logpmf) equal their textbook definitions, with 0*log(y) = 0, and the likelihood of a fit is the sum over illuminations and bins of -2 log Poisson(counts; model scaled to the area of the data).",
  ["inputs"], "every parameter vector, every illumination, every abscissa", "The tests evaluate one parameter point with a low illumination; a term that is small there can dominate elsewhere.", ["spectrum_fitters/gentile.py", "spectrum_fitters/mapm.py", "stats/pdf.py"])
p("C36", "Shifted and averaged waveforms are what their names say",
  "For every array and every whole-number shift n (positive, negative, zero, and longer than the waveform) shift_array returns an array of the same shape whose sample i is the input's sample i - n where that exists and the fill value elsewhere. shift_waveform shifts by t_shift minus the position of the maximum of the average over pixels, passing the fill value on. get_average_wf and get_average_wf_per_pixel return the sum over all events of the source of the baseline-subtracted event aligned to t_shift with zeros shifted in (averaged over pixels for the former), divided by the number of events. obtain_dead_pixel_list_r1 returns the pixels whose average waveform peaks strictly below threshold_percent times the mean of these peaks over the pixels.",
  ["inputs"], "every waveform array, shift, fill value and source", "A handful of shifts does not show the boundary cases (zero, the full length, more than the length).", ["utils/waveform.py"])
p("C37", "Calibration and mapping conversions follow their definitions",
  "Folding an image multiplies it by the stored illumination profile and unfolding divides by it, pixel by pixel. The amplitude calibrator returns (value - pedestal of the pixel) / conversion * flat-field of the pixel from the coefficients it was created with. The SiPM data sheet converter accepts exactly one given characteristic (zero counts as given), refuses none or several with ValueError, and interpolates every column of the sheet along the given one. A list of superpixels (modules) is converted into the four (sixty-four) consecutive pixels of each, in list order. The time correction replaces sample i of a pixel by the value at i minus that pixel's correction, linear between the two neighbouring samples of the same pixel and along the first or last pair at the edges. Reading an HV configuration stores each HV line's value in the DAC array and each HVOn line's in the switch array, at that line's module and superpixel. Sorting a file list orders names by text and by the value of the whole numbers inside them, ascending.",
  ["inputs"], "every image, coefficient, list, waveform, correction and configuration file", "The calibration files are not part of the test data; the shipped tests exercise none of these conversions.",
  ["calib/illumination_profile.py", "calib/amplitude_calibrator.py", "calib/sipm_data_sheet.py", "calib/pixel_masks.py", "calib/time_calibrator.py", "utils/files.py"])
p("C38", "What is read back is what is stored under the name asked for",
  "Every accessor of a file reader returns the stored rows, columns or metadata of exactly the table, column and name asked for: the restrictions the caller gives are applied unchanged, requested columns come back one per request and in the order of the request, and a whole table is read whole. A name that is stored is never refused (only an absent one raises KeyError, and only a table above the size limit that is not forced raises MemoryError). The convenience accessors of a DL1 file (n_events, n_pixels, ..., the module and superpixel quantities) read the entry of their own name for the module and superpixel asked for.",
  ["inputs"], "every file, table, column, metadata name, row restriction, module and superpixel", "A test file has one table and reads it once without restrictions, which hides a restriction that is dropped, a request served from another table and a refusal of a stored name.",
  ["core/io/hdf5_reader.py", "core/io/dl1_reader.py"])
p("C39", "A DL1 file holds each event's own calibrated, baseline-subtracted reduction",
  "For every event that is stored, the reduced columns are the reducer chain applied to the event after time calibration (real data only, never simulations) and then subtraction of the running baseline by the one subtractor of the run; beside them stand that event's own event number, times, first cells, the pixel number of each row, the baseline that was subtracted, and the true charges exactly when the event has them. The chain is set up with the reader's own pixel and sample numbers, mapping and reference pulse and the configuration file asked for. The file also holds the configuration, the module and superpixel tables, the mapping and, for simulations only, one simulation and pointing row per event and the simulation header. Conversions before storing keep every column under its own name in a type that holds its values.",
  ["inputs", "histories"], "every reader (real or simulated), event sequence and configuration", "No test runs the extraction; the readers need libraries the test environment lacks, and a stage that is left out still gives plausible numbers.",
  ["scripts/extract_dl1.py"])

MECH = {
 "C01": [("private copy of the event in the reducer base", "core/reducer.py WaveformReducer._prepare"), ("calibration and subtraction build new arrays", "calib/time_calibrator.py apply_t_cor, utils/waveform.py BaselineSubtractor.subtract")],
 "C02": [("prepare step reassigns every per-event attribute", "waveform_reducers/*._prepare"), ("prepare, columns, post protocol", "core/reducer.py WaveformReducer.process")],
 "C03": [("column registry and active-column selection", "core/reducer.py WaveformReducerMeta, get_active_columns, _get_dict"), ("chain construction and merge", "core/chain.py _build_chain, process")],
 "C04": [("dict layering of defaults, file, arguments", "core/chain.py WaveformReducerChain.__init__, _load_config")],
 "C05": [("duplicate check in the column descriptor", "core/reducer.py column.__init__"), ("default table", "core/chain.py default_columns"), ("template generator", "scripts/generate_dl1_config.py main")],
 "C06": [("columns are pure reads of prepared state", "waveform_reducers/*"), ("settings read from the keyword arguments", "waveform_reducers/* kwargs")],
 "C07": [("reductions along the sample axis", "waveform_reducers/* columns")],
 "C08": [("window clamping, loop ranges, edge guards", "waveform_reducers/timing.py obtain_pulse_timing, cross_correlation.py extract_pulse_time, calib/time_calibrator.py apply_t_cor")],
 "C09": [("attribute propagation hook", "core/io/waveform.py Waveform.__new__/__array_finalize__"), ("readers fill the fields", "core/io/tio.py _get_event, core/io/simtel.py _build_waveform"), ("DL1 rows", "scripts/extract_dl1.py DL1Extractor.__call__")],
 "C10": [("index normalisation and range check", "core/io/waveform.py WaveformReader.__getitem__/__iter__"), ("event limit", "core/io/tio.py TIOReader.__init__")],
 "C11": [("range guards in each query", "core/io/tio.py, core/io/dl1_reader.py get_*")],
 "C12": [("buffer, flush, finish", "core/io/hdf5_writer.py append/_append_to_store/write/add_metadata/_save_metadata/finish")],
 "C13": [("read-write open and metadata merge", "core/io/hdf5_appender.py")],
 "C14": [("read-only open, size guard, chunk size", "core/io/hdf5_reader.py")],
 "C15": [("row arithmetic and event lookup", "core/io/dl1_reader.py select_event_index, event_lookup, iterate_over_*")],
 "C16": [("event loop with skip test and counters", "scripts/extract_dl1.py DL1Writer.write_dl1_file, main")],
 "C17": [("metadata tables written", "scripts/extract_dl1.py, scripts/extract_spe.py, utils/mapping.py"), ("metadata lookups", "core/io/dl1_reader.py, scripts/plot_spe.py, plotting/camera.py")],
 "C18": [("ring buffer of baseline samples", "utils/waveform.py BaselineSubtractor")],
 "C19": [("single pass filling names, minimiser arguments and lookup", "core/spectrum_fitter.py SpectrumParameterCollection._prepare_parameters")],
 "C20": [("rebuild of the minimiser arguments after a change", "core/spectrum_fitter.py load_config, update_initial, SpectrumParameterCollection.update")],
 "C21": [("symmetrical key sets", "core/spectrum_fitter.py save_config, load_config")],
 "C22": [("lookup-by-name binding", "spectrum_fitters/gentile.py, mapm.py calculate_spectrum, _get_spectra, _get_likelihood")],
 "C23": [("per-fit state reset", "core/spectrum_fitter.py SpectrumFitter.apply"), ("results keyed and indexed by pixel", "scripts/extract_spe.py PixelFitApplier, main")],
 "C24": [("logical-or merge, table round trip", "calib/pixel_masks.py")],
 "C25": [("step, revert, clamp logic", "calib/amplitude_matcher.py _get_next_dac_nb, process")],
 "C26": [("sum-and-count accumulation by group", "utils/resolutions.py add/_amalgamate/finish")],
 "C27": [("metadata copied before edit", "utils/mapping.py get_superpixel_mapping, get_tm_mapping"), ("new arrays in calibrators", "calib/illumination_profile.py, calib/waveform.py, utils/waveform.py shift_array")],
 "C28": [("save sequence", "plotting/setup.py Plotter.save"), ("replaced figures closed", "plotting/*")],
 "C29": [("imports and names", "whole package")],
 "C30": [("recursive subclass search", "core/__init__.py child_subclasses"), ("package walk", "waveform_reducers/__init__.py, spectrum_fitters/__init__.py"), ("factory", "core/factory.py"), ("compatibility probe", "core/io/waveform.py WaveformReader.from_path")],
 "C31": [("integration windows, cross correlation", "waveform_reducers/*")],
 "C32": [("mixture of Gaussians", "spectrum_fitters/*, stats/pdf.py")],
 "C33": [("minimiser", "core/spectrum_fitter.py SpectrumFitter.apply")],
 "C34": [("update formula", "stats/welfords.py")],
 "C38": [("accessors that pass the request on to the store", "core/io/hdf5_reader.py read, select, select_column, select_columns, get_metadata, get_mapping"), ("entries by name", "core/io/dl1_reader.py")],
 "C39": [("pipeline of one event", "scripts/extract_dl1.py DL1Extractor.__init__, __call__"), ("tables and conversions", "scripts/extract_dl1.py DL1Writer.write_dl1_file, _prepare_before_append")],
 "C37": [("fold and unfold", "calib/illumination_profile.py"), ("calibration formula", "calib/amplitude_calibrator.py __call__"), ("choice of the given column", "calib/sipm_data_sheet.py __call__"), ("repeat and offset", "calib/pixel_masks.py convert_superpixels_to_pixels, convert_module_to_pixels"), ("linear interpolation with edges", "calib/time_calibrator.py apply_t_cor"), ("patterns and places", "utils/files.py extract_hv_cfg, natural_keys, sort_file_list")],
 "C36": [("slices of the shifted array", "utils/waveform.py shift_array"), ("alignment and accumulation", "utils/waveform.py shift_waveform, get_average_wf, get_average_wf_per_pixel"), ("threshold test", "utils/waveform.py obtain_dead_pixel_list_r1")],
 "C35": [("building blocks", "stats/pdf.py"), ("pedestal, peak loop and cut", "spectrum_fitters/gentile.py sipm_gentile_spe, spectrum_fitters/mapm.py mapm_spe"), ("likelihood", "spectrum_fitters/*._get_likelihood")],
}
for d in P:
    d["anchors"]["mechanism"] = [dict(name=n, where=w) for n, w in MECH[d["id"]]]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
