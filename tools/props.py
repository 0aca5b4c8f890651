CORE = ["cddm/core.py", "cddm/_core_nb.py", "cddm/fft.py"]

prop("C01", "Correlation and difference results equal their definition",
     "For any one or two data sets and any integer time stamps, regular or irregular, every delay bin of a correlation or difference calculation holds exactly the sum over all frame pairs "
     "with that time difference of the product of the two frames (or of the squared modulus of their difference): pairs folded to non-negative delays for real output, signed delays for complex output of two data sets, and each pair once for a single data set. "
     "This holds for every array dimensionality, time axis, memory layout, alignment option and requested number of delays, also when more delays are requested than the data has (then those bins are zero).",
     ["inputs", "configurations"], "all lengths, time-stamp sequences, dimensionalities, axes, layouts and requested numbers of delays within bounds",
     "The tests compare a few fixed arrays with each other; the vectorised kernels have many layout/length/irregular branches, and equality must hold for each.",
     CORE, [("correlation and difference kernels", "_core_nb.py _cross_corr*, _auto_corr*, _cross_diff*, _auto_diff*"), ("front ends", "core.py cross_correlate, auto_correlate, cross_difference, auto_difference")],
     BASE, T_SEQ, observe=["cross_correlate", "auto_correlate", "cross_difference", "auto_difference"])

prop("C02", "FFT-based calculation equals the direct calculation",
     "Correlation and signal sums calculated through FFT are, to rounding error, the same as the direct sums over frame pairs for every length, requested "
     "number of delays, regular or irregular (distinct) time stamps, real or complex output, axis, and selected FFT library. "
     "Changing the FFT library between calls never changes a result.",
     ["inputs", "configurations", "histories"], "all lengths, time sets, delay counts and axes within bounds, all installed FFT libraries and all switch sequences",
     "Zero padding, wrap-around and symmetry handling depend on length and number of delays; tests use one or two lengths and the default library.",
     CORE, [("fft correlation", "fft.py _fft, _ifft; _core_nb.py _cross_corr_fft*, _auto_corr_fft*, _cross_sum_fft, _cross_sum_complex_fft"), ("front ends", "core.py cross_correlate_fft, auto_correlate_fft, cross_sum_fft, auto_sum_fft")], BASE, T_SEQ,
     observe=["cross_correlate_fft", "auto_correlate_fft", "cross_sum_fft", "auto_sum_fft"])

prop("C03", "Pair counts equal the number of frame pairs at each delay",
     "The count functions report, for each delay, exactly how many frame pairs of the given times (or of a regular sequence of the given length) "
     "have this delay: for one or two cameras, folded or signed delays, any order of the times, any requested number of delays, and also when added to existing counts.",
     ["inputs", "histories"], "all time sets over a small universe, all lengths and delay counts, all accumulate sequences up to a depth",
     "Normalization divides by these counts: a single wrong bin silently biases a whole curve.",
     CORE, [("counts", "core.py cross_count, auto_count"), ("kernels", "_core_nb.py _add_count_cross, _add_count_cross_complex, _add_count_auto")], BASE, T_SEQ,
     observe=["cross_count", "auto_count"])

prop("C04", "Correlation data tuples contain consistent sums for each requested norm",
     "The combined correlation functions return the correlation (or difference) together with the count, the sum of squares and the signal sums, each taken exactly over those frame pairs "
     "that entered each delay; precisely the entries required by the requested norm are present and the others are absent. "
     "This holds for every method, norm, axis, memory layout, alignment, real or complex output, and whether or not precomputed squares are passed; unsupported combinations of norm and method are rejected with an error.",
     ["inputs", "configurations"], "all method x norm x axis x layout x precomputed x length/time combinations within bounds",
     "The tests check each norm on one shape; the tuple is produced by separate code paths per method, norm and axis.",
     CORE, [("tuples", "core.py ccorr, acorr"), ("sums", "core.py cross_sum, auto_sum, cross_sum_fft, auto_sum_fft; _core_nb.py _cross_sum*")], BASE, T_SEQ, observe=["ccorr", "acorr", "cross_sum", "auto_sum"])

prop("C05", "Accumulating into previous results adds exactly the new data",
     "Passing previous results as the output of the next calculation yields exactly the sum of the results of all the data segments, in any order and mix of methods, "
     "segment lengths, axes, and regular or irregular times, and the arrays passed in are the ones updated.",
     ["histories"], "all sequences of accumulation operations up to a depth",
     "Tests do at most one accumulation step; in-place accumulation must be correct for every history.",
     CORE, [("output arguments", "core.py ccorr, acorr, cross_correlate, auto_correlate, cross_sum, cross_count (out, aout)")], BASE, T_HIST, observe=["ccorr", "acorr", "cross_correlate", "auto_correlate", "cross_sum"])

prop("C06", "Iterative (streaming) linear calculation equals the in-memory one",
     "Correlating a stream of frames iteratively gives, after the last frame, the same data as the in-memory calculation on the same frames, "
     "and every intermediate result is the in-memory result of the frames consumed so far (of that chunk alone in chunk mode). "
     "This holds for any chunk size, frame count, method, norm, mask, thread divisor, number of delays, one or two cameras, and regular or irregular acquisition times.",
     ["inputs", "configurations", "histories"], "all chunk size x length x method x delay count x mask x mode x times combinations within bounds",
     "The buffer, overlap and remainder logic depends on the relation of frame count, chunk size and number of delays; tests use one or two combinations.",
     ["cddm/multitau.py", "cddm/core.py"], [("iterative linear calculation", "core.py iccorr, iacorr; multitau.py _compute_multi_iter"), ("chunks", "multitau.py _add_data1, _add_data2, _sliced_data; core.py reshape_input")], BASE, T_SEQ,
     observe=["iccorr", "iacorr"])

prop("C07", "Multi-tau calculation equals the coarse-graining definition",
     "The in-memory multiple-tau functions return, for the fast part, the linear correlation of the data at the requested number of delays, and for each slow level the linear correlation of the "
     "data coarse-grained once more by the selected binning (average, first of the pair, or random choice of one whole frame of the pair), at delays below the level size. "
     "This holds for every method, norm, binning, level size, number of levels, period, time axis, mask and thread divisor, and for every outcome of the random choice.",
     ["inputs", "configurations"], "all length x level size x method x binning x norm x period x thread divisor combinations and all random answers within bounds",
     "Each level is built from the previous with several code paths; tests compare one configuration with stored output.",
     ["cddm/multitau.py"], [("multiple-tau", "multitau.py ccorr_multi, acorr_multi, _compute_multi, _determine_lengths"), ("binning", "multitau.py mean_data_parallel, mean_data_cpu, choose_data, slice_data")], BASE, T_SEQ, observe=["ccorr_multi", "acorr_multi"])

prop("C08", "Iterative multi-tau calculation equals the in-memory definition",
     "The streaming multiple-tau functions return the same fast and slow data as coarse-graining and correlating the complete stream level by level, independent of chunk size and thread divisor. "
     "Every intermediate result contains exactly the frames consumed so far in the fast part and a prefix of them in each slow level; in chunk mode each result covers the chunk of each level alone.",
     ["inputs", "configurations", "histories"], "all length x chunk x level size x method x binning x norm x period combinations within bounds",
     "Level buffers are alternately filled and correlated; an error in one level or one chunk parity shows only for some sizes.",
     ["cddm/multitau.py"], [("iterative multiple-tau", "multitau.py iccorr_multi, iacorr_multi, _compute_multi_iter"), ("buffers", "multitau.py _init_data_fast, _init_data_slow, _add_data1, _add_data2")], BASE, T_SEQ, observe=["iccorr_multi", "iacorr_multi"])

prop("C09", "Stream statistics and background subtraction are those of the consumed frames",
     "The background and variance returned by the iterative functions are the per-pixel mean and variance of the frames consumed so far (of the background-subtracted frames, when subtraction is requested), for each of the two "
     "cameras, with any chunk size, mask, thread divisor and at each intermediate step; the in-memory statistics functions give them for any axis and shape. "
     "A given or automatically determined background changes the correlation exactly as if it had been subtracted from every frame.",
     ["inputs", "histories"], "all chunkings and lengths, one and two cameras, mask, automatic and given background",
     "Tests look only at the correlation output of one run.",
     ["cddm/multitau.py", "cddm/core.py"], [("stream statistics", "multitau.py _calc_stats, _init_data_stats, _calculate_background, _remove_background"), ("in memory", "core.py stats, subtract_background")], BASE, T_SEQ, observe=["stats", "subtract_background", "iccorr", "iacorr", "iccorr_multi", "iacorr_multi"])

prop("C10", "Normalization computes the documented formula for every norm and mode",
     "Normalizing correlation or difference data with a background and variance gives, for every norm (baseline, subtracted, structured, compensated, weighted and their combinations), one or two cameras, real or complex data, "
     "correlation or difference output mode, scaling, linear or multi-level data, mask and output array, exactly the documented normalized function, where each delay uses only the averages over its own frame pairs. "
     "The helpers used for it (scale factor, noise level and difference, weights, selection of masked data, conversion of norm names and flags) equal their documented definitions.",
     ["inputs", "configurations"], "all norm x mode x scale x mask x cross/auto x method combinations and data sets within bounds",
     "About 12 norms x 2 methods x 2 modes x scale x mask each have their own formula or branch.",
     ["cddm/norm.py", "cddm/_core_nb.py"], [("normalize", "norm.py normalize, _norm_from_ccorr_data, _norm_from_cdiff_data"), ("formulas", "_core_nb.py _normalize_*, normalize_*, weight_*"), ("helpers", "norm.py scale_factor, noise_delta, noise_level, take_data, norm_from_string, norm_flags")], BASE, T_SEQ, observe=["normalize", "scale_factor", "noise_delta", "take_data"])

prop("C11", "Normalized results are consistent across methods, offsets and units",
     "For the same frames, whatever their content and times, difference-based and structured correlation-based normalizations give the same image structure function, and correlation and difference output modes of the same data are related by the documented conversion. "
     "Norms that subtract the background are invariant to adding any constant to all frames of a camera, and a change of units of the frames scales unscaled results by the square of the factor and leaves scaled results unchanged.",
     ["inputs"], "all frame contents over a small value set, all time sets, all constant offsets and unit factors in a set",
     "Relational identities over all inputs; tests check values on one random data set.",
     ["cddm/norm.py", "cddm/_core_nb.py", "cddm/core.py"], [("normalize", "norm.py normalize, _corr2diff, _diff2corr, _variance2offset")], BASE, T_SEQ, observe=["normalize", "ccorr", "acorr"])

prop("C12", "Log averaging and merging preserve delays and pair information",
     "Log-averaging of linear data and merging of multiple-tau data give strictly increasing delay times, and each output value is the value of repeated [1/4, 1/2, 1/4] averaging and sub-sampling of the linear data (or the matching slow-level value) at exactly that delay, undefined only where no data exists. "
     "The count functions report the matching number of contributing pairs, and normalization of multiple-tau data is the normalization of each of its parts. "
     "This holds for any data length, level size, period, number of levels, binning, and number of extra dimensions.",
     ["inputs", "configurations"], "all lengths, level sizes, periods and levels within bounds",
     "Index arithmetic depends on the sizes; tests use one size.",
     ["cddm/multitau.py", "cddm/avg.py"], [("log", "multitau.py multilevel, multilevel_count, merge_multilevel, log_average, log_average_count, log_merge, log_merge_count, t_multilevel, ccorr_multi_count, acorr_multi_count"), ("normalization", "multitau.py normalize_multi")], BASE, T_SEQ,
     observe=["log_average", "log_merge", "multilevel", "merge_multilevel", "t_multilevel", "normalize_multi"])

prop("C13", "Averaging, interpolation and folding compute their definition on every input",
     "The median, convolution and denoising filters, the running minimum and maximum (decreasing and increasing) filters, the linear and logarithmic interpolation, the weighted sum, the folding of signed delays and the phase correction functions equal their plain definition on each 1D slice of an array of any dimensionality, memory layout and data type, "
     "including the boundaries and arrays with undefined values. "
     "The results depend only on the input and never on earlier memory content.",
     ["inputs"], "all small-valued arrays of each length within bounds",
     "Boundary handling at every length/pattern of values; tests sample one random array.",
     ["cddm/avg.py", "cddm/_core_nb.py", "cddm/norm.py"], [("filters", "avg.py denoise; _core_nb.py convolve, median, decreasing, increasing, weighted_sum, interpolate, log_interpolate"), ("folding and phase", "norm.py fold_data, shift_data, equalize_data")], BASE, T_SEQ,
     observe=["denoise", "decreasing", "increasing", "convolve", "median", "weighted_sum", "interpolate", "log_interpolate", "fold_data", "shift_data", "equalize_data"])

prop("C14", "Sector and ring selections partition the Fourier plane",
     "The selection maps assign every wave vector to the ring within half a step of its rounded size (lower limit excluded, upper included) and to the sector from angle minus half to angle plus half of the sector width (lower limit included, upper excluded, wrapping around), so that rings cover every wave vector and adjacent equal sectors contain each exactly once. "
     "Selecting k averages exactly the data of the assigned wave vectors that are inside of the mask and defined, and reports their mean wave number, for half and full planes, equal or different image sides, any angle, sector, step and k argument; invalid arguments are rejected.",
     ["inputs", "configurations"], "all plane sizes, angles, sectors, steps, masks and k within bounds",
     "Boundary and wrap-around decisions at every pixel; tests check one shape.",
     ["cddm/map.py"], [("maps", "map.py k_indexmap, fft2_k_indexmap, sector_indexmap, fft2_sector_indexmap, rfft2_kangle, fft2_kangle"), ("selection", "map.py k_select, _k_select_real, _k_select_complex")], BASE, T_SEQ, observe=["k_select", "k_indexmap", "sector_indexmap"])

prop("C15", "Fourier-space geometry helpers are mutually consistent",
     "Cropping, wave-vector grids, angle maps, index maps and half/full-plane conversions agree: each cropped or converted coefficient keeps its wave vector and value (or the conjugate value for the opposite wave vector), and grid coordinates, cropped data and masks always address the same points for any image shape, crop limits, axes and data type.",
     ["inputs", "configurations"], "all image shapes and crop limits within bounds",
     "Off-by-one in crop limits for odd/even shapes are only visible at particular sizes.",
     ["cddm/map.py", "cddm/fft.py"], [("crop", "fft.py rfft2_crop, fft2_crop, _determine_cutoff_indices"), ("grids", "map.py rfft2_grid, fft2_grid, rfft2_kangle, fft2_kangle"), ("conversion", "map.py from_rfft2_data, as_rfft2_data, as_rfft2_mask, as_rfft2_conj, as_fft2_shape")], BASE, T_SEQ,
     observe=["rfft2_crop", "fft2_crop", "rfft2_grid", "from_rfft2_data"])

prop("C16", "Video FFT equals the cropped Fourier transform of each frame",
     "Applying the streaming (half- or full-plane) Fourier transform to a video gives, frame by frame and camera by camera in order, the cropped 2D Fourier transform of each image, and Fourier normalization divides each frame by its own mean intensity, for every shape, crop, library, image data type and in-place option. "
     "The light-scattering imaging filters give the inverse transform of the image's transform restricted to the selected wave vectors.",
     ["inputs", "configurations"], "all image shapes, crop limits, libraries, data types within bounds",
     "Tests use one shape.",
     ["cddm/fft.py"], [("video fft", "fft.py rfft2, fft2, rfft2_video, fft2_video, normalize_fft"), ("filters", "fft.py dls, dls_video")], BASE, T_SEQ, observe=["rfft2", "fft2", "normalize_fft", "dls"])

prop("C17", "Video filters map frames one-to-one, in order, and only their own camera",
     "Every video processing step (crop, mask, subtract, add, multiply, normalize, random video) yields exactly one output per input frame set, in order and lazily, computed as documented from that frame of that camera and the argument that belongs to it, for any composition of steps and any number of cameras, in place or not. "
     "Input frames are changed only if in-place operation is requested, and wrong numbers of cameras, invalid regions and failures of the source are reported as errors at the frame where they occur.",
     ["inputs", "programs", "configurations"], "all compositions of processing steps up to a depth on small videos",
     "Composition of lazily evaluated generators; tests check steps in isolation.",
     ["cddm/video.py"], [("filters", "video.py crop, mask, subtract, add, multiply, normalize_video, random_video")], BASE, T_SEQ, observe=["subtract", "add", "multiply", "crop", "mask", "normalize_video"])

prop("C18", "Threaded video reading preserves frames and errors under every schedule",
     "Reading or playing a video through a background thread delivers exactly the frames of the source, once each, in order, then ends, for any queue size. "
     "No thread schedule deadlocks, loses, duplicates or reorders a frame; a failing source is reported to the consumer after the frames before it, and a consumer that stops early leaves no blocked program.",
     ["schedules", "fault_sequences"], "all interleavings of producer and consumer up to a preemption bound, all source lengths, queue sizes, and failure points within bounds",
     "Tests run one schedule chosen by the OS.",
     ["cddm/video.py"], [("threads", "video.py threaded, play_threaded, ImageShow")], BASE, T_SCHED, observe=["threaded", "play_threaded"])

prop("C19", "Showing and playing a video never alters the data stream",
     "Inserting any combination of displays and a play step into the pipeline returns the same frames in the same order as without them, whatever the frame rate limits, the timing and errors of the source. "
     "Each display shows one image per frame that is on time and none for a frame that is late; every image is the documented one (raw image, Fourier intensity with the chosen mode and clipping, or frame difference) of a frame of its camera, and frames appear in order and never twice.",
     ["configurations", "histories", "inputs"], "all frame rate/clock behaviours and figure combinations within bounds",
     "Timing dependent: tests run with a real clock.",
     ["cddm/video.py"], [("play", "video.py play, ImageShow, figure_title"), ("displays", "video.py show_video, show_diff, show_fft, norm_rfft2")], BASE, T_SEQ, observe=["play", "show_video", "show_fft", "show_diff", "norm_rfft2"])

prop("C20", "Loading a video into arrays preserves every frame and reports bad counts",
     "Converting a video stream into arrays, memory maps, or arrays back to a video preserves each frame, camera, order, shape and data type for any frame count. "
     "A video that is empty, shorter or longer than the declared count, or whose length cannot be determined, is reported with an error and never returned with uninitialised or missing frames.",
     ["inputs"], "all video lengths x declared counts x data types x camera counts within bounds",
     "Only exact counts are tested.",
     ["cddm/video.py"], [("load", "video.py asarrays, asmemmaps, fromarrays, load, _first_frames")], BASE, T_SEQ, observe=["asarrays", "asmemmaps", "fromarrays", "load"])

prop("C21", "Configuration setters are atomic, validated and return the previous value",
     "Each configuration setter accepts exactly its documented values, returns the previous value, changes only its own setting, and a rejected value leaves the configuration unchanged; restoring the returned value restores the former behaviour. "
     "Settings of the configuration file and of the environment take effect as documented (environment before file before default), and invalid or unavailable values fall back to a working configuration.",
     ["histories", "configurations"], "all setter sequences reaching all configurations, over valid and invalid values; all pairs of file entries with environment values",
     "Interaction of settings over histories.",
     ["cddm/conf.py"], [("setters", "conf.py set_verbose, set_showlib, set_fftlib, set_rfft2lib, set_fft_threads, set_numba_threads"), ("start-up", "conf.py _readconfig, _read_environ_variable, CDDMConfig")], BASE, T_HIST, observe=["set_verbose", "set_showlib", "set_fftlib", "set_rfft2lib", "set_fft_threads", "set_numba_threads", "CDDMConfig"])

prop("C22", "Library calls preserve the user's verbosity, also when they fail",
     "Calling any library function leaves the verbosity level as the caller set it, in every nesting of print-disabled sections and also if the call raises at any internal step or the video source fails. "
     "Inside a print-disabled section or at verbosity 0 nothing is printed, and at higher verbosity the progress messages are complete and never make a calculation fail.",
     ["fault_sequences", "histories"], "all enable/disable histories up to a depth, each internal call failing once",
     "Needs fault injection at each internal call.",
     ["cddm/print_tools.py", "cddm/norm.py", "cddm/multitau.py", "cddm/core.py"], [("prints", "print_tools.py disable_prints, enable_prints, print1, print2, print_progress, print_frame_rate")], BASE, T_FAULT, observe=["print1", "print2", "disable_prints", "enable_prints", "set_verbose"])

prop("C23", "Simulated trigger times follow the documented trigger scheme",
     "Every generated random-trigger time sequence, of one camera or of two cameras in both schemes, has the documented number of frames, is strictly increasing, keeps the documented minimum separation, and places each frame in its own trigger period (each camera of a pair at the documented moments), for any random outcome. "
     "Triggering data at given indices yields exactly the data of these frames, in the order of the indices.",
     ["inputs"], "all answers of the random number generator for small parameters",
     "The tests check one seed.",
     ["cddm/sim.py"], [("times", "sim.py create_random_time, create_random_times1, create_random_times2, random_time_count"), ("trigger", "sim.py data_trigger")], BASE,
     "exhaustive enumeration of all random-number answers for the real code", observe=["create_random_time", "create_random_times1", "create_random_times2", "random_time_count", "data_trigger"])

prop("C24", "Simulated motion and drawing place each particle where it should be",
     "The simulator wraps each particle periodically into the box at every step, advances it by velocity times time step plus the random displacement, and draws every particle at its (wrapped) position with its own intensity, adding where particles overlap, for points and for point spread functions of any size. "
     "Videos of one or two cameras contain exactly one frame per trigger time, each showing the particles at that time, also if frames coincide or one camera lags. "
     "Sensor conversion, form factor and coordinate transform equal their documented formulas and invalid arguments are rejected.",
     ["inputs"], "all positions over a small grid including the borders, all trigger time pairs, all step counts within bounds",
     "Border cases.",
     ["cddm/sim.py", "cddm/_sim_nb.py"], [("motion", "_sim_nb.py mirror, make_step; sim.py brownian_walk, brownian_particles"), ("drawing", "_sim_nb.py draw_points, draw_psf, psf_gauss"), ("video", "sim.py particles_video, simple_brownian_video, adc, coordinate_transform, form_factor")], BASE, T_SEQ, observe=["particles_video", "simple_brownian_video", "brownian_particles", "adc"])

prop("C25", "Masked and reshaped data round-trip without loss",
     "Reshaping frames through a mask and thread layout and back returns each value at its original position (and undefined values where masked out) for every frame shape, time axis, mask, divisor, memory layout and data type, and invalid divisors are rejected. "
     "A calculation on the reshaped data, reshaped back, equals the calculation on the original data.",
     ["inputs", "configurations"], "all masks of small shapes, all thread divisors, axes, layouts and data types",
     "Specific shapes only in tests.",
     ["cddm/core.py"], [("reshape", "core.py thread_frame_shape, reshape_input, reshape_output, reshape_frame")], BASE, T_SEQ, observe=["reshape_input", "reshape_output", "reshape_frame", "thread_frame_shape"])

prop("C26", "Calculation functions never modify their inputs or the user's global state",
     "No calculation, normalization, selection or averaging function changes the arrays passed to it (except a documented output argument), the settings of the library, or global state of the program (warning filters, random number state, print options). "
     "Hence calling it again, or after any other functions on the same data, gives the same result as on fresh data, and overwriting an earlier result never changes the input or a later result.",
     ["histories", "inputs"], "all public functions x layouts x options, repeated calls and all pairs of functions on shared data",
     "Aliasing depends on memory layout and flags.",
     CORE + ["cddm/norm.py", "cddm/multitau.py", "cddm/avg.py", "cddm/map.py"], [("input copies", "core.py _move_axis_and_align, reshape_input, subtract_background; norm.py normalize, _inspect_background; _core_nb.py"), ("global state", "decorators.py deprecated; print_tools.py")], BASE, T_HIST, observe=["all public calculation functions"])

prop("C27", "Window functions are bounded, symmetric and equal their documented profile",
     "Each window function (blackman, gaussian, tukey, hann) returns the requested shape, values within [0, 1], the symmetry of the image, and its documented radial profile for every shape and parameter, also when written to a given output array.",
     ["inputs"], "all shapes and parameters within bounds", "One shape in tests.",
     ["cddm/window.py"], [("windows", "window.py blackman, gaussian, tukey, hann")], BASE, T_SEQ, observe=["blackman", "gaussian", "tukey", "hann"])

prop("C28", "The data viewers show the selection that the calculation functions return",
     "After any sequence of user selections (k, angle, sector, mask, index, norm, mode, scale), made through methods or through the sliders, buttons and check boxes of the figure, the data returned and drawn by the viewers, the marked wave vectors and the reported wave number equal normalizing and selecting the data directly with the same settings. "
     "A viewer attached to a running stream calculation shows the result of the frames consumed so far, and the video viewer shows exactly the frame that its buttons selected.",
     ["histories"], "all sequences of viewer operations up to a depth",
     "State of the user interface over histories is not tested.",
     ["cddm/viewer.py"], [("viewers", "viewer.py DataViewer, MultitauViewer, CorrViewer, DataArrayViewer, CorrArrayViewer, MultitauArrayViewer, VideoViewer")], BASE, T_HIST, observe=["get_data", "set_mask", "set_k", "plot", "update"])

prop("C29", "Numeric configuration does not change the results",
     "With the kernels configured to run in parallel threads, with fast math or in single precision, every calculation returns the same result as the default configuration to the rounding error of that precision: "
     "correlation, counts, sums, multi-tau, statistics, averaging and drawing of simulated images. No interleaving of the threads of a parallel kernel changes a result, also when particles overlap.",
     ["schedules", "configurations"], "three configurations x sub-lists of the enumerations of the other properties; all interleavings of the iterations of the parallel loop for small images, up to a preemption bound",
     "The tests run in the default configuration only; a lost update needs two threads at the same pixel.",
     ["cddm/conf.py", "cddm/_sim_nb.py", "cddm/core.py"], [("targets", "conf.py NUMBA_TARGET, NUMBA_PARALLEL, NUMBA_FASTMATH, PRECISION"), ("parallel loop", "_sim_nb.py draw_psf")],
     BASE + " The compiled parallel loop itself runs without schedule control; its Python form is explored under a controlled scheduler.",
     "controlled-scheduler exploration of all interleavings of the parallel loop (preemption bound), plus exhaustive bounded enumeration per configuration against the reference model",
     observe=["draw_psf", "ccorr", "iccorr_multi"])

prop("C30", "Every documented route from frames to curves gives the values of the definition",
     "The documented analysis of a video - crop, background subtraction or normalization, window, Fourier transform with wave-vector limits, masking by a video filter, by a mask argument or at normalization, splitting for threads, "
     "linear or multiple-tau calculation, in memory or from a stream, normalization, logarithmic averaging and merging, selection of wave vectors - yields the values obtained by evaluating the definitions directly on the recorded frames. "
     "It therefore yields the same curves whichever of the equivalent routes, sources, libraries and calculation methods is chosen, for one and two cameras and for regular and irregular triggering.",
     ["inputs", "configurations"], "all combinations of the stages' options within bounds, on generic frames",
     "The tests exercise single functions; agreement of shapes, masks, statistics, delays and units between the stages is what a user relies on.",
     ["cddm/video.py", "cddm/fft.py", "cddm/core.py", "cddm/multitau.py", "cddm/norm.py", "cddm/map.py"],
     [("stages", "video.py crop, subtract, multiply, normalize_video, mask, asarrays; fft.py rfft2_video; core.py ccorr, acorr, iccorr, iacorr, stats, reshape_input, reshape_output; multitau.py; norm.py normalize; map.py k_select")],
     BASE, "exhaustive bounded enumeration of all combinations of stages on the implementation against the reference model", observe=["asarrays", "ccorr", "iccorr_multi", "normalize", "log_merge", "k_select"])
