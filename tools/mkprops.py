import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,**kw):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=['src/seismic/'+f for f in files],
        mechanism=[dict(name=a,where='src/seismic/'+b) for a,b in mech]),**kw))
C='correlate/correlate.py';S='correlate/stream.py';D='db/corr_hdf5.py';M='monitor/monitor.py'
PC='monitor/post_corr_process.py';SM='monitor/stretch_mod.py';W='trace_data/waveform.py';U='utils/miic_utils.py'
prop('C01','All processes of a parallel run take part in the same collective calls',
 'In a run on several processes, every process executes the same sequence of collective communications with the same root: whether, how often and in which order a collective is reached never depends on a value that differs between processes (its rank, its share of the work, the data it happened to read). A failure that the program tolerates on one process (it is logged and the run goes on) never makes that process skip, repeat or reorder a collective the others wait in.',
 ['schedules','configurations','fault_sequences','inputs'],
 'every process count, every assignment of stations to processes, every pattern of local read/preprocessing failures',
 'The tests run one process with mocked communicators; a mismatch only shows with at least two processes and rank-local data gaps, and then as a hang.',
 [C,M,W,'utils/raw_analysis.py','monitor/spatial.py'],
 [('correlation main loop','correlate/correlate.py: Correlator._generate_data, generate_corr_inc, _pxcorr_inner, _pxcorr_matrix'),('monitor bulk drivers','monitor/monitor.py: compute_*_bulk')])
prop('C02','Parallel work is split exactly once and every share is used',
 'Wherever work is distributed over processes, each item is handled by exactly one process for every item count and every process count, the items are listed in the same order on all processes before they are split, and partial results are combined by a sum over arrays that are zero outside the own share, by gathering all shares, or by each process writing files only for its own items.',
 ['configurations','schedules','inputs'],
 'every number of processes and work items, every hash seed and directory order',
 'Tests run on a single process, where any split is trivially complete.',
 [C,M,'monitor/spatial.py','utils/raw_analysis.py'],
 [('share selection and reductions','correlate/correlate.py: Correlator._generate_data, _write, _pxcorr_matrix'),('share selection','monitor/monitor.py: compute_velocity_change_bulk, compute_waveform_coherence_bulk')])
prop('C03','A correlation file never mixes data computed with different parameters',
 'Opening a correlation file together with a parameter set either finds no stored parameters and stores the given ones, finds stored parameters equal to the given ones, is forced explicitly by the user, or is refused with an error before anything is written. All processing parameters take part in the comparison except the fixed list of bookkeeping options that do not change the samples (directories, read window, selection and combination of stations, subdivision output switches, time masks); the comparison is made on the same normal form for both sides and leaves the parameter set of the caller untouched, and every process that adds correlations opens the file with its parameters.',
 ['inputs','configurations','histories'],
 'every pair of stored and new parameter sets, every sequence of runs',
 'Tests compare a handful of dictionaries; a key that silently drops out of the comparison, or a branch that skips it, needs a parameter nobody varied.',
 [D,C],[('parameter guard','db/corr_hdf5.py: DBHandler.__init__, add_corr_options, get_corr_options, co_to_hdf5'),('writer','correlate/correlate.py: Correlator._write')])
prop('C04','Stored correlations are computed once, never overwritten or silently lost',
 'Adding correlations to a file never deletes, replaces or truncates a stored correlation, and a time that is already stored is reported and left as it is. When a run is resumed, every combination is checked against the times already stored for exactly that channel combination (in either order of the two stations) under its own start time before it is computed, and whatever was computed is written before the run ends.',
 ['histories','crash_points','inputs'],
 'every history of interrupted and repeated runs and every content of the existing files',
 'Tests check single calls with mocks; they do not run a history of partial, resumed and repeated runs.',
 [C,D],[('resume logic','correlate/correlate.py: find_existing_times, _compare_existing_data, calc_cross_combis, pxcorr'),('store','db/corr_hdf5.py: add_correlation, get_available_starttimes')])
prop('C05','Every component uses the same canonical order of a station pair',
 'A pair of traces is stored under one canonical order (network, then station, then channel, each compared as a whole code), and the code that writes, names files, looks up existing data, reads and deletes all use this same order. Whenever the order of a pair is exchanged, network, station and channel are exchanged together, the samples are reversed and the lag axis is mirrored with them; when the order is kept, none of this happens.',
 ['inputs'],'every combination of network, station and channel codes, including codes that are prefixes of each other',
 'Tests use a few fixed codes of equal length for which different orderings agree.',
 [S,C,D],[('pair order','correlate/stream.py: alphabetical_correlation, combine_stats'),('pair order of lookups','correlate/correlate.py: sort_comb_name_alphabetically, _compare_existing_data; db/corr_hdf5.py: get_data, remove_data')])
prop('C06','Lag axis, sample count and derived header times always agree',
 'For every correlation the last lag equals the first lag plus (number of samples - 1) times the sampling interval, the sampling interval is the inverse of the sampling rate, and the start and end time mirror the correlation window, after any change of any one of them. Code that computes a lag or a lag sample index elsewhere uses the same relation: the sample of lag t is (t - first lag) times the sampling rate.',
 ['inputs','histories'],'every sequence of header assignments and every operation that changes the number of samples or the lag range',
 'Tests assert a few values after single assignments; one key that stops refreshing the others, or an off-by-one in one of the sites, passes them.',
 ['correlate/stats.py',S,C,PC,'monitor/trim.py'],[('derived header values','correlate/stats.py: CorrStats.__setitem__'),('lag axis','correlate/stream.py: CorrTrace.times; correlate/correlate.py: _pxcorr_inner, _pxcorr_matrix; monitor/trim.py')])
prop('C07','Every opened file is closed on every exit, including failures',
 'Every correlation database, parameter file or text file the package opens (log files and self-closing numpy archives aside) is closed again on every path, also when the operation in between raises or when opening is refused after the file was already open. Leaving the context of a correlation database always closes it and never swallows the exception.',
 ['fault_sequences','inputs','crash_points'],'every exception that can be raised between opening and closing',
 'Tests hardly raise between open and close, and a leaked handle does not fail a test; it locks or corrupts the file later.',
 [D,C,M,W,'utils/miic_utils.py','utils/io.py'],[('database context','db/corr_hdf5.py: DBHandler.__init__, CorrelationDataBase.__enter__/__exit__')])
prop('C08','Saved results can be read back with the same content',
 'Everything that is written to disk (header entries and data of a correlation, velocity-change, waveform-coherence and correlation-bulk objects) is restored by the corresponding reader under the same name, with the same kind (times as times, a single time as one time and a list of times, even of one, as a list, lists as lists, numbers as numbers) and in full precision, without entries added or lost: arrays of an object never appear in its header, its processing parameters and its processing history come back as they were saved. (Header entries of a type the file format cannot hold are skipped with a warning.)',
 ['inputs','histories'],'every content of the saved object, every optional field present or absent',
 'Tests round-trip one small instance and compare a few fields.',
 [D,'monitor/dv.py','monitor/wfc.py',S,U],[('writers and readers','monitor/dv.py: DV.save, read_dv; monitor/wfc.py: WFC.save, read_wfc; utils/miic_utils.py: save_header_to_np_array, load_header_from_np_array; db/corr_hdf5.py: convert_header_to_hdf5, read_hdf5_header')])
prop('C09','Bulk processing writes back data and header and records its provenance',
 'Each processing step of a correlation matrix object that changes its samples stores the processed samples in the object, stores the header belonging to them whenever the step changes the header, appends exactly one description of the step (naming the parameters used) to its processing history after the step succeeded, and returns the object. Steps that only measure or extract leave samples, header and history as they were.',
 ['histories','inputs'],'every sequence of processing steps with every parameter choice',
 'Tests mostly mock the numerical functions and check single calls.',
 [S,PC],[('bulk methods','correlate/stream.py: CorrBulk')])
prop('C10','Measuring functions never alter the data or header they are given',
 'Functions and methods that estimate, measure, extract, select, copy, compare, average or save (velocity-change, time-shift, coherence and reference estimation, trace extraction, header combination, averaging, plotting, saving) leave every array, header, stream and list that the caller passed in (or the object they are called on, apart from a documented result attribute) exactly as it was; only the order of the traces in a stream may change, and an in-place correction that the caller asked for is exempt.',
 ['inputs','histories'],'every input and every sequence of calls on shared objects',
 'Tests use each input once and look at the result, not at the inputs afterwards; aliasing shows only when the same object is used again.',
 [SM,PC,M,'monitor/dv.py','monitor/wfc.py',S,'monitor/spatial.py'],[('estimators','monitor/stretch_mod.py; monitor/post_corr_process.py: corr_mat_stretch, corr_mat_shift, measure_shift, corr_mat_extract_trace')])
prop('C11','Headers follow the data whenever its shape or sampling changes',
 'Every operation on a correlation matrix that changes the number of traces, the number of samples, the sampling rate or the covered lag or time range updates the corresponding header entries (trace count, sample count, sampling rate, first lag, start and end time lists and other per-trace lists) in the same operation, from the new data, and an operation that refuses or does nothing leaves both untouched.',
 ['inputs','histories'],'every matrix shape, sampling rate and chain of operations',
 'Tests check shapes for a few sizes; stale list entries show only in later operations.',
 [PC,'monitor/trim.py',S,'correlate/stats.py'],[('matrix operations','monitor/post_corr_process.py: corr_mat_mirror, corr_mat_resample, corr_mat_decimate, corr_mat_resample_time; monitor/trim.py'),('bulk slicing','correlate/stream.py: CorrBulk.__getitem__, slice, create_corr_stream')])
prop('C12','Missing data stays missing: NaN rows never become measurements',
 'Times without data (rows that are entirely undefined) are reported as undefined in every result: a best-fitting stretch or shift is set undefined wherever its similarity is undefined, averages ignore undefined entries and are undefined where nothing was available, and time windows without correlations yield undefined rows. Waveform samples in gaps are set to zero before any spectral processing so that a gap never spreads into other samples.',
 ['inputs'],'every pattern of gaps and undefined samples',
 'Tests use complete data or one hand-made gap; an argmax over an undefined row silently returns the first grid value.',
 [SM,PC,M,'monitor/dv.py',C],[('argmax sites','monitor/stretch_mod.py: velocity_change_estimate, time_shift_estimate; monitor/dv.py: DV.smooth_sim_mat; monitor/monitor.py: average_components'),('gap filling','correlate/correlate.py: _pxcorr_matrix')])
prop('C13','Estimated and applied stretch or shift follow one sign convention',
 'A positive stretch or shift reported by any estimator means the same direction of the lag axis in all estimators, in the functions that apply a stretch or shift, and in the correction methods, so that correcting a matrix with the values estimated from it removes the change instead of doubling it. Each estimator evaluates the reference on exactly the grid of values that it returns as its second axis.',
 ['inputs'],'every stretch or shift value, sampling rate and reference',
 'Tests check one estimator at a time on symmetric or zero changes.',
 [SM,PC,S],[('stretching and shifting','monitor/stretch_mod.py: time_windows_creation, create_shifted_ref_mat, time_stretch_estimate, time_shift_estimate, time_stretch_apply; monitor/post_corr_process.py: apply_stretch, apply_shift; correlate/stream.py: correct_stretch, correct_shift')])
prop('C14','Unknown option values are refused, documented ones are all handled',
 'Every option that selects a method by name (combination method, averaging method, normalisation, reference extraction, lag side, stacking weight, window, zero padding, plot type) is refused with an error when the given name is not one of the documented ones, before any data is changed, and each documented name reaches a branch that computes a result of the declared kind.',
 ['inputs','configurations'],'every value of every method-selecting option',
 'Tests call the documented values they know, and a few wrong ones in some functions only.',
 [C,PC,SM,M,S,'correlate/preprocessing_td.py','correlate/preprocessing_fd.py','monitor/spatial.py'],[('dispatch','every if/elif chain over a method name')])
prop('C15','Running a processing step never changes the configuration it was given',
 'Processing steps and drivers never write into the option dictionaries, argument dictionaries or shared parameter dictionaries they are given, so that a step gives the same result for the first and for every later window, station and run, and the parameters written to log and database are the ones used. The only state a driver keeps in its own configuration is bookkeeping it fully recomputes before each use.',
 ['histories','configurations'],'every configuration and every number of repeated applications',
 'Tests apply each step once to a fresh configuration.',
 ['correlate/preprocessing_td.py','correlate/preprocessing_fd.py','correlate/preprocessing_stream.py',C,M],[('steps','correlate/preprocessing_*.py'),('drivers','correlate/correlate.py: Correlator; monitor/monitor.py: Monitor')])
prop('C16','Time-window selections keep exactly the correlations they promise',
 'Selecting by time keeps a correlation if and only if its window satisfies the documented relation to the request, for every relative position including equal boundaries: select_corr_time with partial selection keeps those that end after the requested start and not after the requested end, without it those that lie fully inside (boundaries included); slice keeps those that overlap or touch, or those fully inside; pop_at_utcs drops those with an instant strictly between start and end; select_time keeps those that start and end within the time of day (or exactly the others). Averaging windows are half open (start included, end excluded) so that adjacent windows never share a correlation, and the windows have the requested length and increment. Masking by time hides every sample whose time lies in a masked interval, however the interval lies relative to the trace, and (reverse) exactly the other ones.',
 ['inputs'],'every relative position of window boundaries (all finite orderings of the end points, ties included)',
 'Tests pick a few positions; the interesting cases are ties and enclosing intervals.',
 [S,PC,'correlate/preprocessing_stream.py',M],[('selection predicates','correlate/stream.py: CorrStream.select_corr_time, pop_at_utcs, select_time, CorrBulk._find_slice_index; monitor/post_corr_process.py: corr_mat_resample; correlate/preprocessing_stream.py: trace_mask_at_utc')])
prop('C17','Downsampling is always protected against aliasing, upsampling is refused',
 'Whenever data are reduced to a lower sampling rate, a low-pass filter with a corner at or below the new Nyquist frequency has been applied to the same data before samples are dropped (unless the caller explicitly switches the filter off, which the package itself never does); a request for a higher rate than the data have is refused with an error; and the resulting header carries the new rate.',
 ['inputs'],'every original and target sampling rate, integer ratio or not',
 'Tests cover a few ratios and look at header values; aliasing is invisible in them.',
 [U,PC],[('resampling','utils/miic_utils.py: resample_or_decimate; monitor/post_corr_process.py: corr_mat_decimate, corr_mat_resample_time, corr_mat_resample_or_decimate')])
prop('C18','Spectra, frequency axes and inverse transforms share one length',
 'Each inverse transform restores the length of the record its forward transform was computed from (odd lengths included), each frequency axis is built for the same length and sampling rate as the spectrum it is used with, and conjugation and time shift of a correlation are applied to the same pair of spectra in the fixed order first-conjugate times second.',
 ['inputs'],'every record length (even and odd), sampling rate and padding option',
 'Tests use even lengths; a one-sample mismatch stretches the lag axis by a fraction that no test measures.',
 [C,'correlate/preprocessing_td.py','correlate/preprocessing_fd.py'],[('correlation','correlate/correlate.py: _pxcorr_matrix'),('steps','correlate/preprocessing_td.py: spectralWhitening, zeroPadding')])
prop('C19','A read-only waveform archive is never written',
 'When the waveform archive was opened read-only, no operation reachable from it (loading, downloading missing data, reading or completing station metadata, preprocessing a stream) creates, changes or deletes a file below the archive.',
 ['histories','configurations','fault_sequences'],'every call sequence on a read-only archive, with local data present or missing',
 'Tests set the flag in one case and mock the remote side.',
 [W,C],[('archive writers','trace_data/waveform.py: Store_Client')])
prop('C20','Text read from files or the command line is never executed',
 'No text that comes from a file name, a file or a user option is evaluated as code, unpickled, or loaded with an unsafe loader; functions named in a configuration are only resolved by importing a module and taking an attribute, and stored parameter text is parsed as a literal.',
 ['inputs'],'every content of files, directory names and configuration values',
 'Tests only use benign names.',
 [W,D,'utils/fetch_func_from_str.py','utils/io.py',U],[('text to object','db/corr_hdf5.py: get_corr_options; utils/fetch_func_from_str.py; trace_data/waveform.py: get_available_stations')])
prop('C21','In batch runs one failing item never stops or corrupts the others',
 'In every batch loop (files, channels, lapse windows and groups to average of a monitoring run, time windows of a correlation run, streams and windows of a spectrogram, files to read or plot, traces to taper or downsample, correlations to store, velocity changes to correct) an error while processing one item (where only ValueError is documented as recoverable, such as in a correlation run: a ValueError) is caught inside the loop body, reported, and the remaining items are processed; nothing computed for a failed item is used for the next one, and processing one item does not change data shared with the others.',
 ['fault_sequences','inputs'],'every item failing in every step of its processing',
 'Tests make no item, or every item, fail.',
 [M,C,W],[('batch drivers','monitor/monitor.py: compute_velocity_change_bulk, compute_components_average, compute_waveform_coherence_bulk, compute_waveform_coherence, correct_time_shift_several; correlate/correlate.py: Correlator._generate_data; utils/raw_analysis.py: spct_series_welch; monitor/dv.py: read_dv; plot/plot_multidv.py; utils/miic_utils.py: resample_or_decimate; correlate/preprocessing_stream.py: cos_taper_st; db/corr_hdf5.py: add_correlation')])
prop('C22','Averages combine only compatible results of the requested selection',
 'Averaging velocity changes or coherences uses only results with the same method, the same grid and the same shape, never averages an average again, and counts each contribution exactly once in both numerator and denominator; a result that is skipped contributes nothing, neither to the sums nor to the metadata of the average. Selecting the correlation files or results to process honours network and station filters together and never takes in a different station whose code merely begins with the same characters.',
 ['inputs'],'every mixture of results, every set of station codes',
 'Tests average identical synthetic results of one station.',
 [M],[('averaging and filtering','monitor/monitor.py: average_components, average_components_mem_save, average_components_wfc, average_dvs_by_coords, corr_find_filter, compute_components_average')])
prop('C23','Spatial inversion uses only usable data, in matching order',
 'A measurement enters the spatial inversion if and only if the requested time lies in its series and the measurement closest to that time has a value and a coherence above 0.001 and below 1. Value, coherence and the coordinates of both stations of the same measurements, in one order, feed the sensitivity kernels, the data variance and the solution (least squares, resolution, posterior covariance, truncated SVD). Cached kernels and distances are reused only under everything they depend on. Without lapse window or frequency band, given or recorded, nothing is computed; a point outside of the grid is refused; a kernel integrates travel times from 0 to the lapse time only. When velocity changes are aligned to the grid, exactly the usable ones are aligned, each to its own forward value, and marking one as aligned marks no other.',
 ['inputs','histories'],'every set of stations, missing measurements and every sequence of calls on one grid',
 'Tests invert one complete synthetic data set.',
 ['monitor/spatial.py'],[('inversion','monitor/spatial.py: DVGrid, is_usable, dv_starts, align_dv_curves, sensitivity_kernel; monitor/dv.py: DV.__init__')])
prop('C24','Stacks never mix different stations, channels or lengths',
 'A stack is computed only from correlations of one identifier (network, station, channel, and location unless switched off) and with equal sampling and length; its time span covers exactly the correlations used, each correlation enters exactly one group, and the weights of a weighted stack are normalised by the sum of the same weights. The stack a correlation run stores holds the correlations of one read interval only.',
 ['inputs'],'every mixture of identifiers, lengths and time windows in a stream',
 'Tests stack equal synthetic traces of one or two stations.',
 [S,C],[('stacking','correlate/stream.py: stack_st_by_group, stack_st, CorrStream.stack, create_corr_bulk, convert_statlist_to_bulk_stats; correlate/correlate.py: pxcorr')])
prop('C25','Exactly the requested combinations are correlated',
 'For every set of available traces, every combination method and every list of requested combinations, the pairs of traces that are correlated are exactly those the method defines (between stations: network or station differ; between components: same station, other component; auto: each trace with itself; all simple: each unordered pair once; all: each ordered pair), each once, and restricted to the requested combinations, given in either order and with or without channels. The data of all their stations are read, existing correlations are looked up for the same combinations, pairs selected by distance are requested under their own names, and the indices of the pairs always belong to the traces they are applied to.',
 ['inputs','configurations'],
 'every set of networks, stations and channels (including codes that are prefixes of each other) and every requested list',
 'Tests use two or three traces and one requested combination; missing pairs leave no trace in the output.',
 [C],[('combinations','correlate/correlate.py: calc_cross_combis, is_in_xcombis, compute_network_station_combinations, Correlator._filter_by_rcombis, find_interstat_dist, _generate_data')])
prop('C26','Reading never modifies a correlation database',
 'Programs that only consume correlations (monitoring, coherence, lookup of existing times) open the database read-only, and operations that query or load data, channels, times or parameters perform no write, creation or deletion; only adding correlations, storing parameters and explicit deletion modify a file, and explicit deletion removes nothing but what was asked for.',
 ['histories','schedules','inputs'],'every call sequence and every number of concurrent readers',
 'Tests run one reader on a scratch file and do not compare the file before and after.',
 [D,C,M],[('database access','db/corr_hdf5.py: DBHandler, CorrelationDataBase; monitor/monitor.py; correlate/correlate.py: find_existing_times')])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P), [p['id'] for p in P if len(p['title'])>80])
