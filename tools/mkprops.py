#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, pathlib
P = []
SS = 'src/razorback/signalset.py'; FT = 'src/razorback/fourier_transform.py'
ME = 'src/razorback/mestimator.py'; WE = 'src/razorback/weights.py'
UT = 'src/razorback/utils.py'; PF = 'src/razorback/prefilters.py'
ATS = 'src/razorback/io/ats.py'; BF = 'src/razorback/io/binary_file_array.py'
CA = 'src/razorback/calibrations.py'; DA = 'src/razorback/data.py'; CL = 'src/razorback/cli.py'


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))


prop('C01', 'Time restriction keeps exactly the samples inside the interval', """
Restricting a run or a signal set to a time interval keeps, for every channel, exactly the samples whose
time lies in the closed interval (clock rounding aside), each with its original value, time and calibration;
excluding an interval keeps exactly the samples at or outside its bounds.
In a signal set, runs left with fewer than two samples disappear, and bounds may lie anywhere;
on a single run, bounds outside it are moved to its ends, or refused in strict mode.
""", ['inputs', 'configurations'], """any sampling rate (dyadic or not), start time (zero, negative, POSIX),
run lengths, number of runs and channels, and bounds on, between, at the ends of or outside the samples""",
"""One doctest with integer times at 1 Hz and 0.5 Hz; rounding of time to sample index for real clocks and
rates, exclusion, bounds between samples and single-sample leftovers are never exercised.""",
[SS], [('time/index conversion with left/right rounding', 'SyncSignal._time_to_index, SyncSignal._index_to_time'),
       ('SyncSignal.extract_t / extract_i', SS), ('SignalSet.extract_t drops runs of size <= 1, exclude joins left and right', SS)],
observe=['SignalSet.extract_t', 'SyncSignal.extract_t', 'SyncSignal.extract_i', 'Inventory.extract_t'])

prop('C02', 'Join is the union of runs, matched by channel name', """
Joining signal sets that have the same channel names gives one set whose runs are exactly the runs of all
operands in time order, in which every name designates the same samples and calibrations as in the operand the run came
from, even when the operands order their channels differently or the names are given as a plain dictionary.
Operands with different names or incompatible name structure, and runs that overlap in time, are refused.
Neither operand order nor grouping changes what any name designates.
""", ['inputs', 'programs'], """any number of operands, runs, channels, channel permutations, multi-channel names and
interleaving of run times""", """The doctest joins two or three fixed sets; permutations are checked on one channel and calibrations never.""",
[SS], [('channel reordering by tags', 'SignalSet._reorder_data'), ('sorting and overlap refusal', 'SignalSet.__init__'), ('SignalSet.join', SS)],
observe=['SignalSet.join', 'SignalSet.__or__', 'SignalSet constructor'])

prop('C03', 'Merge keeps all channels over exactly the common time stretches', """
Merging signal sets with distinct channel names gives all their channels over exactly the time stretches common to
all of them: one run per combination of runs with the same sampling rate that share at least two samples, from
the latest start to the earliest stop, in which every name has the values and calibrations it had at those times.
Stretches with differing sampling rates are skipped, clashing names and same-rate runs whose sampling instants are not
aligned are refused, and having nothing in common gives an empty set; operand order and grouping do not matter.
""", ['inputs', 'programs'], """any number of operands, runs per operand, sampling rates, start clocks (including POSIX times with
non-dyadic periods) and overlap patterns (nested, chained, touching, disjoint)""",
"""Doctests merge two channels of the same run and four inventory layouts at 1 Hz; they never compare sample values of
partially overlapping operands, other rates, or empty operands.""",
[SS], [('recursive interval intersection', 'SignalSet.merge.rec'), ('extraction of the common interval in every operand and concatenation of data and calibrations', 'SignalSet.merge')],
observe=['SignalSet.merge', 'SignalSet.__and__'])

prop('C04', 'Channel selection returns exactly the designated channels', """
Selecting channels of a signal set by name, index, slice or a sequence mixing these (by method, indexing or attribute)
gives exactly the designated channels, in their original order without duplicates, with samples, calibrations and run
times unchanged. A name survives exactly when all its channels are selected, and then it still designates the same channels in the
same order. Unknown names or indices are refused.
""", ['inputs'], """any tag structure (overlapping groups, aliases, untagged channels), any identifier form and order, any number of runs""",
"""Doctests use one three-channel set and five selections.""", [SS],
[('identifier resolution and tag re-indexing', 'SignalSet.select_channels'), ('attribute access', 'SignalSet.__getattr__'), ('indexing', 'SignalSet.__getitem__'), ('SyncSignal.select', SS)],
observe=['SignalSet.select_channels', 'SignalSet.__getitem__', 'SignalSet.__getattr__', 'SyncSignal.select'])

prop('C05', 'Run selection follows array indexing and changes nothing else', """
Selecting runs of a signal set with an index, a list of indices, a slice or a boolean mask keeps exactly the runs that the
same index would pick from a one-dimensional array, in time order, with their samples, times and calibrations, and with all
channel names unchanged. Out-of-range indices and indices that repeat a run are refused.
Two-part indexing equals selecting channels then runs.
""", ['inputs'], 'any number of runs and any index form, including negative indices, steps, empty selections and masks computed from the run attributes',
'Doctests only use two masks on sampling rates.', [SS],
[('numpy index on arange', 'SignalSet.select_runs'), ('SignalSet.__getitem__', SS)],
observe=['SignalSet.select_runs', 'SignalSet.__getitem__'])

prop('C06', 'Merging consecutive runs concatenates exactly the gapless runs', """
Merging consecutive runs fuses every maximal chain of runs that have the same sampling rate and in which each run starts one
sampling period after the previous one stops (clock rounding aside), and leaves all other runs as they are. Each fused run holds the
samples of its members in order, starts when the first one starts and uses the first one's calibrations, so no sample is lost, duplicated or moved in time.
""", ['inputs'], 'any sequence of runs, chain lengths, gaps (including touching runs and fractional gaps), mixed sampling rates, POSIX start times with non-dyadic rates, and number of channels',
'Tests cover eight layouts at 2 and 4 Hz and compare only the interval bounds, never the samples or the calibrations.', [SS],
[('consecutive detection with tolerance', 'SignalSet.merge_consecutive_runs'), ('grouping of flags', '_group_indices')],
observe=['SignalSet.merge_consecutive_runs'])

prop('C07', 'Packing an inventory yields its largest consistent signal set', """
Packing an inventory gives a signal set with all channels and names of the inventory whose runs are, for each sampling rate,
exactly the time stretches of at least two samples common to single runs of every channel, gapless neighbours being fused, in which
every name has the samples and calibrations recorded for it at those times. If no such stretch exists the result is empty.
The result does not depend on the order in which the records were stored.
""", ['inputs', 'histories'], 'any set of records split by site, channel group, file and sampling rate with consistent name structure, stored in any order',
'Doctests check names and bounds of four tiny inventories; sample values, several rates, split files and storage order are never checked.', [SS],
[('grouping of tags by carrying items, join then merge', 'Inventory._join_merge'), ('per sampling rate packing', 'Inventory.pack')],
observe=['Inventory.pack', 'Inventory.merge'])

prop('C08', 'Inventory queries return exactly the matching channels, runs and times', """
Filtering an inventory by shell-style patterns or by names returns, record by record and in order, exactly the channels designated by the matching names;
restricting it by runs or by time applies the same restriction to each record and drops records left empty; grouping channels adds
one signal set per group whose new name designates the listed channels in order. Inventories only accept signal sets, concatenate in order, and queries leave them unchanged.
""", ['inputs', 'histories'], 'any inventory content, patterns with *, ?, [seq], [!seq], names present in only some records, run masks and intervals',
'Only select_channels with full names on one inventory is tested.', [SS],
[('fnmatch on all tags', 'Inventory.filter'), ('Inventory.select_channels / select_runs / extract_t / extract_groups', SS), ('type check', 'Inventory._assert_valid_element')],
observe=['Inventory.filter', 'Inventory.select_channels', 'Inventory.select_runs', 'Inventory.extract_t', 'Inventory.extract_groups', 'Inventory.__add__'])

prop('C09', 'Channel names behave as a mapping to valid channel indices', """
Under any sequence of assignments, deletions, updates and look-ups, by item or by attribute, a set of channel names behaves like a dictionary from names to
tuples of channel indices in a fixed range. An update that uses an index out of range, an empty group or an illegal name is refused and leaves the entry as it was.
Names equal to a method of the mapping are ordinary names, reached by item. Pattern queries return exactly the matching names, or the sorted union of their indices.
""", ['histories', 'inputs'], 'any operation sequence over any legal names, values given as integers or sequences, any range size',
'Tests only construct fixed names and compare two of them.', [SS],
[('TagsBase.__setitem__ validation', SS), ('attribute emulation', 'TagsBase.__getattr__ / __setattr__ / __delattr__'), ('Tags.filter / filter_get', SS)],
state=[('_tags', 'name to indices mapping', SS), ('_indices', 'allowed range', SS)],
observe=['Tags item and attribute access', 'Tags.filter', 'Tags.filter_get'])

prop('C10', 'Combining signal sets never alters the originals', """
Any sequence of joins, merges, selections, restrictions, run fusions, Fourier transforms and inventory operations gives the same results as the same operations on a plain model of tagged sample sets,
and leaves every signal set, run, name table and raw sample array involved earlier exactly as it was. A deep copy of a signal set or an inventory has the same content. Adding, changing or removing names on one
signal set afterwards changes no other signal set.
""", ['histories', 'programs'], 'all programs of up to a few dozen operations over a growing pool of signal sets with unique sample values, with interleaved edits of names',
'Tests run single operations on fresh objects and never re-inspect operands; aliasing between derived sets is invisible to them.', [SS],
[('copying of tags on construction', 'SignalSet.tags setter'), ('immutability of SyncSignal', SS)],
state=[('SignalSet._tags', 'private copy of names', SS), ('SignalSet._signals', 'tuple of runs', SS)],
observe=['all public SignalSet / SyncSignal / Inventory operations'])

prop('C11', 'Fourier coefficients follow the documented sliding-window transform', """
For each channel and run, the coefficient of window k is (2/L) times the sum over the window of taper times sample times exp(-2 i pi f j / rate), divided by the channel's calibration at that frequency,
where windows have length L (the requested number of periods, rounded up to a whole sample), advance by a constant shift set by the overlap, and cover every position that fits; runs are concatenated in
time order and the reported window counts, lengths and shifts describe exactly these coefficients.
Too low frequencies and frequencies above Nyquist are refused.
""", ['inputs', 'configurations'], 'any sample data, sampling rate, frequency, number of periods, overlap in [0, 1), taper (none, array, function), calibrations and run lengths',
'One doctest compares two coefficient slices of a split signal; nothing checks values, counts, tapers or calibrations.', [FT, SS],
[('window geometry', 'discrete_window'), ('sliding dot product', 'time_to_freq'), ('calibration division', 'SyncSignal.fourier_coefficients'), ('run concatenation', 'SignalSet.fourier_coefficients')],
observe=['time_to_freq', 'SyncSignal.fourier_coefficients', 'SignalSet.fourier_coefficients'])

prop('C12', 'Results do not depend on how samples are stored or scheduled', """
Signal operations and Fourier coefficients give the same values whether samples are in-memory arrays (integer or floating), lazily loaded chunked arrays of any chunking, or file-backed records,
whether coefficients are computed at once or later, and whichever scheduler and number of worker threads evaluates them.
""", ['configurations', 'schedules'], 'any mix of representations and chunk sizes (smaller or larger than a window), sample types, schedulers (synchronous, threads of any count) and thread interleavings',
'Tests use one representation per test and the default scheduler once.', [FT, BF, ATS, SS],
[('dask sliding windows', 'time_to_freq'), ('slice based proxies', 'BaseArrayProxy.__getitem__, BinaryFileArray_1D.extract'), ('np.concatenate over lazy data', 'SignalSet.merge_consecutive_runs')],
observe=['fourier_coefficients', 'merge_consecutive_runs', 'extract_t', 'load_ats'])

prop('C13', 'Least-squares transfer functions are optimal and well-behaved', """
Without weights, the estimated transfer function minimises the squared misfit over the windows not rejected beforehand, so exact linear data give back the exact transfer function. It transforms accordingly when outputs or inputs are scaled or linearly mixed,
does not depend on window order, each output is estimated independently of the others, and initially rejected windows act as if absent and are reported back.
""", ['inputs'], 'any well-conditioned complex or real inputs and outputs, any number of outputs, inputs and windows, any initially rejected indices (common to all outputs or one list each)',
'The only estimation test has one real scalar channel with ratio 2.', [ME],
[('weighted least squares', 'wlse'), ('elimination', 'eliminate, merge_invalid_indices'), ('transfer_function', ME)],
observe=['mestimator.transfer_function'])

prop('C14', 'Robust estimates follow the documented reweighting', """
With the M-estimator or bounded-influence weights the estimate is the one obtained by the documented chain: least squares, then iteratively reweighted least squares with each weight in turn, from the previous
estimate, on the windows not yet rejected, until the weighted residual changes by less than the tolerance, rejecting windows whose weight vanishes and failing if the iteration limit is hit.
It is equivariant under scaling of outputs and linear mixing of inputs and independent of window order.
""", ['inputs', 'configurations'], 'any noisy data with well-conditioned inputs, any number of channels and windows, weight sequences (Huber, Thomson with automatic or given threshold, bounded influence with any probability and step count), tolerances and iteration limits',
'The test data have noise 1e-12 and a real scalar response, so any weight gives the answer 2.', [ME, WE],
[('iteration and convergence', 'm_estimate'), ('chain', 'chain_m_estimate'), ('weight formulas', 'Huber, Thomson, BoundedInfluenceStep, bi_weights, mad_scale, expexp')],
observe=['mestimator.transfer_function', 'weights.Huber', 'weights.Thomson', 'weights.bi_weights', 'weights.mest_weights'])

prop('C15', 'Robust estimation survives gross outliers and names them', """
When a small fraction of windows is grossly corrupted in the outputs, the M-estimator and bounded-influence estimates stay as accurate as on clean data, and when the corruption is in the inputs the bounded-influence estimate does. Output-corrupted windows are all among the
rejected indices reported for that output, which are distinct, increasing, in the numbering of the windows supplied, also when other windows were rejected beforehand, and few clean windows are rejected.
""", ['inputs', 'fault_sequences'], 'any placement, size, phase and pattern (isolated, bursts, ends) of up to 3 percent corrupted windows (moderate leverage for corrupted inputs), any number of channels, with or without initial rejections',
'The test data contain no outlier, and only counts of rejected windows for one data set are asserted.', [ME, WE],
[('rejection and index composition', '_eval_weight, merge_invalid_indices'), ('redescending weights', 'Thomson'), ('leverage control', 'BoundedInfluenceStep')],
observe=['mestimator.transfer_function', 'utils.impedance'])

prop('C16', 'Estimates do not depend on earlier or concurrent estimations', """
An estimation gives bit-for-bit the same result whatever was estimated before with the same weight objects, including estimations that failed, and whatever other
threads are estimating at the same time with the same weight objects. Weight objects keep working after being copied or sent to another process.
""", ['schedules', 'histories'], 'any order and interleaving of estimations of any sizes sharing the predefined or user-built weight objects, up to 8 threads, with switches forced between and inside weight evaluations',
'Tests run a handful of estimations sequentially in a single thread.', [WE, ME],
[('per-estimation state reset at iteration 0', 'Thomson.__call__, BoundedInfluenceStep.__call__'), ('state local to a thread', WE)],
state=[('Thomson._data', 'scale frozen at iteration 0', WE), ('BoundedInfluenceStep._prev', 'previous hat weights', WE)],
observe=['mestimator.transfer_function', 'utils.impedance', 'weights objects'])

prop('C17', 'Error estimates have the right size and scaling', """
The error attached to a transfer function is the residual norm over sqrt(n - p), enlarged by the factor n / (n - rejected), times the square root of the diagonal of the inverse input power matrix;
hence it is non-negative, scales with outputs and inversely with inputs, and for least squares with Gaussian noise matches the actual scatter of the estimates.
""", ['inputs'], 'any numbers of windows, inputs, outputs and rejected windows, any scaling, and repeated noise realisations',
'Tests only check that the error is NaN when the estimate is.', [ME], [('transfer_error', ME)], observe=['mestimator.transfer_error', 'utils.impedance'])

prop('C18', 'Impedance estimates recover the true response of the recorded system', """
For recordings in which the electric channels are a linear filtering of the magnetic channels, the impedance at each frequency is the filter's frequency response (sign, amplitude, phase, and order of
channels as named), after dividing each channel by its calibration, up to leakage and noise. It equals the regression of the windowed Fourier coefficients, each frequency being treated independently, and does not change when all
start times are shifted, runs are stored in another order, or unrelated channels are added.
""", ['inputs', 'configurations'], 'any mixing matrix or short causal filter, channel counts and orders, calibrations, sampling rates, frequencies, Fourier options, weights, prefilters and run layouts',
'The single test uses one real scalar ratio of 2, no calibration and one run, where swapped rows, conjugation or wrong channel order are invisible.', [UT, SS, FT, ME],
[('per-frequency pipeline', '_impedance'), ('fourier coefficients by tags', '_impedance'), ('default Fourier options', 'impedance')],
observe=['utils.impedance'])

prop('C19', 'Remote reference removes bias and equals two-stage regression', """
With a remote reference the impedance is that of the two-stage regression (local magnetic on remote, then electric on the predicted magnetic), windows rejected in the first stage being excluded from the second; with as many remote as local magnetic channels and plain least squares it equals the
classical cross-spectral remote-reference estimate. Noise in the local magnetic channels that is independent of the remote therefore does not bias the estimate, and the reported remote-to-local transfer is the first-stage regression.
""", ['inputs', 'configurations'], 'any number of remote channels (at least as many as local), any mixing matrices, noise levels, weights and prefilters for either stage',
'The only remote test uses the local field as its own remote, where both stages are trivial.', [UT, ME],
[('first and second stage', '_impedance'), ('union of first-stage rejections', '_impedance')], observe=['utils.impedance with remote'])

prop('C20', 'A frequency that cannot be estimated fails alone', """
When some frequencies cannot be processed (outside the feasible range, too few windows, no convergence, everything rejected, a dead magnetic channel, or an error in a prefilter), the results for these frequencies are NaN with the usual shapes and all other frequencies have exactly the values they have alone.
With silent failure turned off, an estimation failure is raised instead.
""", ['inputs', 'fault_sequences'], 'any mix of feasible and infeasible frequencies in any order, any channel counts (also unequal electric and magnetic counts), with or without remote, and failures injected in weights and prefilters at either stage',
'Tests pass one single infeasible frequency with one electric and one magnetic channel, where every shape is 1x1.', [UT],
[('early return for Fourier failures', '_impedance'), ('stage failure flags', '_impedance')], observe=['utils.impedance'])

prop('C21', 'Reported rejected times are the centres of the rejected windows', """
When rejected windows are kept, each electric channel reports one time per rejected window, equal to the centre of that window in the run it belongs to (run start plus window shift times window number plus half a window length, in seconds), in increasing order, so that windows corrupted at a known time
are reported at that time and nothing outside the runs is reported. Otherwise an empty list per electric channel is reported.
""", ['inputs'], 'any number of runs of different sampling rates and lengths, prefilters and robust weights, with or without remote, real or complex formulation',
'The test checks only the number of reported times for one run starting at 0 at 1 Hz.', [UT], [('index to time conversion per run', '_impedance')], observe=['utils.impedance(keep_invalid_times=True)'])

prop('C22', 'The coherence prefilter rejects exactly the blocks out of bounds', """
The prefilter splits windows into consecutive blocks of the given size (the last one absorbing the remainder), gives all windows of a block the root of the fraction of output power explained by regressing that output on the inputs within the block, and rejects exactly the windows whose value is
outside the given bounds. Values lie in [0, 1], do not depend on the scale of outputs or on mixing of inputs, and the diagnostic helpers (over several frequencies or one) report them at the window centre times of every run, of the remote stage too.
""", ['inputs'], 'any block size, number of windows (multiple of the size or not, fewer than the size), number of inputs, bounds, and data quality',
'No test calls any prefilter.', [PF, UT], [('CoefficientOfDeterminationFilter.value', PF), ('apply_prefilter, prefilter_values', UT)], observe=['prefilters.cod_filter', 'utils.prefilter_values', 'utils.compute_prefilter', 'utils.impedance(prefilter=...)'])

prop('C23', 'ATS files load with exact samples, clock and scaling', """
Loading ATS files gives one channel per file in the order given, with exactly the stored integers times the file's scale factor, the header's sampling rate and start time, and the given calibrations; a file shorter than announced gives the samples present, with a warning. Loading a directory takes its files in the order of their names.
Files that disagree on start or rate are refused, header fields decode to their stored values, and channels never mix even when different files are given by the same relative name from different directories.
""", ['inputs', 'histories'], 'any header content, sample counts, header lengths, scale factors, truncation points, file names (strings or paths), chunk sizes and sequences of loads and directory changes',
'No test reads an ATS file.', [ATS, BF], [('header decoding', 'read_ats_header'), ('lazy array naming', 'read_ats_sample, to_dask_array'), ('size check', 'BinaryFileArray_1D._get_real_size')], observe=['io.load_ats', 'io.ats.read_ats_header'])

prop('C24', 'File-backed arrays index like in-memory arrays', """
Indexing a file-backed or proxy array with integers, slices of any sign and step, and tuples of them returns the same values, shape and type as indexing the equivalent in-memory array, out-of-range integers are refused, and the backend is only asked for ranges inside the array.
Reading is safe from several threads at once, and a file that shrinks after opening causes an error, never wrong or missing samples.
""", ['inputs', 'schedules', 'fault_sequences'], 'any array size and dimension, offset, sample type, index expression, number of concurrent readers, and truncation of the file between opening and reading',
'Proxies are only used through one-chunk lazy arrays whose values are never checked.', [BF], [('index splitting', 'BaseArrayProxy._to_slice, _pure_slice_index'), ('reading', 'BinaryFileArray_1D.extract')], observe=['BaseArrayProxy.__getitem__', 'BinaryFileArray_1D', 'to_dask_array'])

prop('C25', 'Metronix calibrations give the tabulated sensor response', """
A Metronix calibration function returns at each tabulated frequency f the value f * module * exp(i * phase) of the table chosen by the chopper state (on at or below the sampling-rate limit), interpolates in between, and refuses frequencies outside the table, except that with
the chopper on frequencies below the table follow the analytic low-frequency response of the sensor type named in the file name, continuous in amplitude. Unknown sensor types and missing files are refused.
""", ['inputs', 'configurations'], 'any calibration table, sampling rate around the limit, sensor type, layout of the text file, frequency, and user-supplied limit, pattern or sensor table',
'No test reads a calibration file.', [CA], [('table selection', 'metronix.start_stop'), ('interpolation and low-frequency model', 'metronix.calibration')], observe=['calibrations.metronix'])

prop('C26', 'Phoenix calibrations give one response per channel and level', """
Loading a Phoenix calibration file returns one function per channel that equals the tabulated complex response of that channel for the requested sampling level at each tabulated frequency, interpolates in between within that level only, and refuses other frequencies. A level absent from the file is refused.
""", ['inputs'], 'any number of channels, levels, rows and their order, header styles (one or two header lines), at least two tabulated frequencies per level, and frequencies', 'No test reads a calibration file.', [CA], [('phoenix', CA)], observe=['calibrations.phoenix'])

prop('C27', 'Data files resolve locally first, and the command line agrees', """
A data file is taken from the data directory of the current working directory if that directory exists and has the file, otherwise from the package's own data directory, and is otherwise refused. The command line prints exactly the directory searched first,
creates only the local directory and only when asked, says whether it was created or already existed, changes nothing else, and can be repeated.
""", ['configurations', 'histories'], 'any combination of present and missing local and package directories and files, changes of working directory, and sequences of commands', 'No test touches data lookup or the command line.', [DA, CL], [('lookup order', 'data.get_data_file, data.data_path'), ('path commands', 'cli.path_action')], observe=['data.get_data_file', 'data.data_path', 'rzb path base', 'rzb path metronix', 'rzb version'])

prop('C28', 'Tags extracted from paths are exactly the matching fields', """
For each path, in order, the path is yielded exactly when the whole path matches the pattern ('*' within one directory level, '**' across levels, '?' one character, [seq] and [!seq], '{field}' one or more letters, digits or underscores, anything else literally), with each template filled with field values that make the pattern match the path.
Templates using unknown fields and malformed fields are refused.
""", ['inputs'], 'any path names (with special regular-expression characters, several levels, redundant separators), patterns and templates', 'The existing test only prints results and asserts nothing.', [UT], [('pattern translation', '_prepare_pattern'), ('field parsing', '_get_fields'), ('tags_from_path', UT)], observe=['utils.tags_from_path'])

prop('C29', 'Handling lazily loaded signals does not read their samples', """
Loading files and then joining, merging, selecting, restricting, fusing runs, packing and printing signal sets reads no sample data; samples are read only when values are computed, and computing on a restricted time interval reads only the parts of the files that overlap it, up to the chunk size in force.
""", ['inputs', 'programs'], 'any program of bookkeeping operations on lazily loaded signals and any chunk size', 'Tests do not observe reads.', [BF, ATS, SS, FT], [('lazy arrays', 'to_dask_array, read_ats_sample'), ('slicing without evaluation', 'SyncSignal.extract_i'), ('lazy concatenation', 'SignalSet.merge_consecutive_runs')], observe=['backend reads during SignalSet / Inventory operations'])

prop('C30', 'Mass processing equals processing each combination by itself', """
Mass processing returns, for every combination of the remote references (or the single full one if asked) and every time interval, exactly what a direct impedance estimation of the packed inventory with that remote group and time interval returns, in the order of combinations and intervals reported.
""", ['inputs', 'configurations'], 'any number of remotes, intervals, frequencies and estimation options', 'No test calls mass processing.', [UT, SS], [('combination loop', 'impedance_mass_proc'), ('remote grouping', 'Inventory.extract_groups')], observe=['utils.impedance_mass_proc'])

prop('C31', 'Installed packages can extend the command line', """
Every command that an installed package declares for the command line appears in its command list next to the built-in ones, sorted and once, and runs when called by name with its arguments; without such packages the built-in commands are available, and an unknown command is an error.
""", ['configurations'], 'any set of installed command declarations, including one with the name of a built-in command', 'No test uses the command line.', [CL], [('PluginGroup', CL)], observe=['rzb command list and dispatch'])

prop('C32', 'The real-valued formulation agrees with the complex one', """
Solving the estimation as a real-valued problem gives the same least-squares transfer function as the complex formulation, works with the same options for impedances, with or without remote reference, and takes and reports rejected windows in the numbering of the windows supplied.
""", ['inputs', 'configurations'], 'any complex data, channel counts, weights, prefilters and initial rejections', 'No test uses the real-valued option.', [UT, ME], [('real embedding', 'transfer_function_real_prob')], observe=['utils.transfer_function_real_prob', 'utils.impedance(real_pb=True)'])

prop('C33', 'Every signal set obtained is well-formed, ill-formed ones are refused', """
In every run all channels have the same length and one calibration each, and the stop time is the start plus (length - 1) sampling periods; in every signal set runs are in time order, do not overlap, have the same channels, and every name designates existing channels.
Run attributes (rates, sizes, starts, stops, intervals, counts) describe the runs in order, and data violating these rules are refused at construction, as are names out of range when set later.
""", ['inputs', 'programs'], 'any constructor arguments, valid or broken in any one way, and any object produced by any operation', 'Tests never construct ill-formed data.', [SS], [('validation', 'SignalSet.__init__, SyncSignal.__init__, SignalSet.tags setter'), ('properties', SS)], observe=['SyncSignal and SignalSet constructors and attributes'], hook='none (constructor wrappers installed by the harness)')

prop('C34', 'Slepian tapers are normalised and concentrated at any length', """
The Slepian taper of any length has that length, real positive values, unit mean (within one percent for interpolated long tapers), symmetry about its centre up to the interpolation step, and at least 99.9 percent of its energy within the requested half-bandwidth; long tapers have the same shape as short ones.
""", ['inputs', 'configurations'], 'any window length from a few samples to hundreds of thousands and half-bandwidth parameters in common use', 'Only seen through a scalar ratio that any taper reproduces.', [FT], [('dpss and interpolation above 1000 samples', 'slepian')], observe=['fourier_transform.slepian_window'])

prop('C35', 'Weights downweight monotonically and scale-free', """
Huber and Thomson weights lie in [0, 1], never increase with the size of the residual, are unchanged when all residuals are multiplied by a common factor, leave residuals well within the scale untouched, ignore the values of windows already rejected, and follow their documented formulas with a scale taken from the median
absolute deviation; bounded-influence steps additionally reduce windows with excessive leverage, the steps going from the loosest to the tightest bounds.
""", ['inputs', 'histories'], 'any residual vectors and leverage patterns, including rejected entries, and any thresholds', 'Tests only use weights through data on which they are irrelevant.', [WE], [('Huber, Thomson, BoundedInfluenceStep', WE), ('bi_weights', WE)], observe=['weights.Huber', 'weights.Thomson', 'weights.BoundedInfluenceStep', 'weights.bi_weights'])
prop('C36', 'What is printed tells the actual content', """
Printing a run, a signal set, a table of names, an inventory or a sequence of weights always works and changes nothing. The summary of a signal set gives its numbers of channels and runs, every name with its channels,
and one line per run in time order with its rate to five digits and its start and stop in UTC to the nearest second, whatever the local time zone; representations contain every name and every run or set in order,
and the representation of a table of plain names gives back an equal table when evaluated.
""", ['inputs'], 'any signal set, empty or not, any legal name, any rates and times, any local time zone', 'Tests print nothing.', [SS, WE],
[('summaries', 'SignalSet.__str__, SyncSignal.__str__, Tags.__repr__, Weights.__repr__')], observe=['str() and repr() of SignalSet, SyncSignal, Tags, Inventory, Weights'])
prop('C37', 'The same inputs give the same results in every process', """
Running the same program on the same inputs gives bit for bit the same signal sets, names in the same order, loaded files, printed summaries, impedances, errors and rejected times, in every process: whatever the hash seed, local time zone, locale,
working directory and environment, and whatever the process did before.
""", ['inputs', 'histories', 'configurations'], 'any program over signal sets, inventories, files and estimations, any hash seed, time zone, locale and previous activity', 'A test run lives in one process and never compares it with another.', [SS, UT, ME, ATS],
[('orders taken from dictionaries and sets', 'Inventory.pack, _join_merge, Inventory.tags, tags_from_path'), ('dates', 'SignalSet.__str__, io.ats'), ('estimation', 'mestimator, utils.impedance_mass_proc')], observe=['results of Inventory, SignalSet, utils.impedance, utils.impedance_mass_proc, io.load_ats, utils.tags_from_path'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
print(len(P), 'properties')
