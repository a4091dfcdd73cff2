TECH.update({
 'C02': 'normal forms of work-share expressions and taint analysis '
        '(unordered sources, own share, partial arrays) over the syntax '
        'tree by abstract interpretation',
})
NOTE.update({
 'C01': 'Static taint analysis, no execution; the archive client is assumed '
        'to answer all processes alike; calls into libraries are modelled.',
 'C02': 'Static; recognised share forms are complete and disjoint by '
        'construction, other forms are reported; library calls modelled.',
})
NA.update({
})
TECH.update({
 'C07': 'typestate dataflow analysis of open files over every function body '
        '(normal and exceptional exits, ownership transfer, helpers)',
})
NOTE.update({
 'C07': 'Static; intraprocedural with summaries; log files and numpy '
        'archives are outside the rule; a file stored on an object without '
        'context manager is reported.',
})

TECH.update({
 'C10': 'alias and effect analysis: parameters carry their origin through an '
        'abstract interpretation; every store or in-place operation that '
        'reaches an object of the caller is reported',
})
NOTE.update({
 'C10': 'Static; table of measuring functions; effects of library calls are '
        'modelled (in-place numpy and obspy operations).',
})

TECH.update({
 'C20': 'syntax-tree query with import and alias resolution over all call '
        'sites (sinks that execute or unpickle text)',
})
NOTE.update({
 'C20': 'Static; third-party readers (obspy, h5py, numpy) are trusted to '
        'parse their formats without executing them.',
})

TECH.update({
 'C19': 'abstract interpretation of the archive class with the read_only '
        'flag fixed to True; every file-changing call still reached is '
        'reported',
})
NOTE.update({
 'C19': 'Static; list of file-changing calls (os, shutil, numpy, h5py, obspy '
        'write/download); effects inside third-party code beyond that list '
        'are not seen.',
})

TECH.update({
 'C15': 'alias and effect analysis: options and argument objects carry their '
        'origin through an abstract interpretation of every step and driver; '
        'every write that reaches them is reported, except named bookkeeping '
        'keys; lint for module tables and mutable defaults',
})
NOTE.update({
 'C15': 'Static; steps a configuration names outside the package cannot be '
        'seen; bookkeeping keys combinations, starttime, sampling_rate are '
        'accepted.',
})

TECH.update({
 'C26': 'effect analysis of the file handler by abstract interpretation '
        '(writes on the symbolic file), constant propagation of the open '
        'mode, guard analysis of every deletion',
})
NOTE.update({
 'C26': 'Static; list of writing h5py operations; a handle that escapes '
        'its with block is taken as a writer.',
})

TECH.update({
 'C03': 'abstract interpretation of the opening of a database with the '
        'outcome of the comparison and the force flag fixed; partial '
        'evaluation of the normal form on a dictionary with every option; '
        'argument-flow checks at every call site that writes',
})
NOTE.update({
 'C03': 'Static; the list of bookkeeping options is the specification; '
        'options unknown to it must take part in the comparison.',
})

TECH.update({
 'C05': 'abstract interpretation over a symbolic algebra of code strings; '
        'every ordering decision is answered by an oracle for both orders '
        'and its key is compared with the canonical key; paths, header '
        'entries, samples and lags are compared as normal forms',
})
NOTE.update({
 'C05': 'Static; codes are taken as non-empty words of letters and digits '
        'without separators; location codes do not take part in the order.',
})

TECH.update({
 'C06': 'partial evaluation of the header setter for each key; polynomial '
        'normal forms and dimensional analysis (seconds, samples) of every '
        'sum, comparison and index that uses a lag',
})
NOTE.update({
 'C06': 'Static; rounding is transparent to the normal forms; any array '
        'length counts as the number of samples.',
})

TECH.update({
 'C09': 'abstract interpretation of each method of the bulk object with '
        'the processing functions opaque: final data, header, history and '
        'return value are terms over their results',
})
NOTE.update({
 'C09': 'Static; the list of steps is the specification, new methods are '
        'treated as extracting; in-place effects of the processing '
        'functions are the subject of C10 and C11.',
})

TECH.update({
 'C12': 'dataflow over terms: values picked at a maximum must be masked by '
        'the undefined maximum, averages of a table of functions must be '
        'NaN-aware, order of zeroing and spectral processing',
})
NOTE.update({
 'C12': 'Static; the table of averaging functions is part of the rule; '
        'smoothing across correlations (which replaces NaN on purpose) is '
        'not covered.',
})

TECH.update({
 'C14': 'constant propagation of each option value (documented or not) '
        'through the dispatch of each function in a table; reachability of '
        'returns and raises',
})
NOTE.update({
 'C14': 'Static; the table of options and documented names is the '
        'specification; what a branch computes is only compared between '
        'names, not judged.',
})

TECH.update({
 'C17': 'dataflow from each sample-dropping operation back to the low-pass '
        'design; polynomial normal form of corner over new rate; abstract '
        'comparison of requested and old rate for the refusal',
})
NOTE.update({
 'C17': 'Static; what a library filter does for a given corner is trusted.',
})

TECH.update({
 'C18': 'symbolic length propagation through padding, forward and inverse '
        'transforms; structural check of the cross spectrum; polynomial '
        'balance of phase shift, first lag and start time difference',
})
NOTE.update({
 'C18': 'Static; user-supplied spectral steps (resolved by name) are '
        'outside the analysed code.',
})

TECH.update({
 'C16': 'abstract evaluation of the extracted selection formulas over all '
        'weak orderings of the interval end points (ties included)',
 'C21': 'exception-flow analysis of every risky call inside the batch '
        'loops (enclosing handlers, how they end), definite-assignment '
        'dataflow across iterations, mutation analysis of shared objects',
})
NOTE.update({
 'C16': 'Static; a selection whose condition cannot be reduced to a formula '
        'over the window boundaries is not decided (no alarm).',
 'C21': 'Static; which calls count as work on one item is part of the rule '
        'table.',
})
NA.pop('C16', None)
NA.pop('C21', None)

TECH.update({
 'C11': 'path-sensitive must/may analysis of header writes at every return '
        'of new or unchanged data; matching of the extracted values with '
        'size, slice, step and windows of the new data (polynomial normal '
        'form)',
})
NOTE.update({
 'C11': 'Static; covers the matrix operations, CorrBulk selections and '
        'combination, CorrStats dependent entries.',
})
NA.pop('C11', None)

TECH.update({
 'C13': 'interprocedural extraction of the points at which interpolants are '
        'evaluated, algebraic normal form (t exp(kx), t + kx) and sign '
        'algebra between estimators, application and correction',
})
NOTE.update({
 'C13': 'Static; an evaluation point without that normal form is reported '
        'only if it is polynomial or exponential in the value; the trimming '
        'effects at the edges of the lag axis are outside.',
})
NA.pop('C13', None)

TECH.update({
 'C22': 'interprocedural extraction of the conditions under which a result '
        'reaches a sum, count, list or reference and evaluation in abstract '
        'cases (average, other method, shape, grid, codes, coordinates); '
        'finite-state dataflow over the file filter',
})
NOTE.update({
 'C22': 'Static; a result counts as average by the letters av in its codes '
        '(the convention of the code); numerical equality of grids up to '
        'rounding is outside.',
})
NA.pop('C22', None)

TECH.update({
 'C24': 'provenance analysis: which selection, in which order, every value '
        'of a stack, its weights and its header is taken from; extraction '
        'of grouping keys and of compared header entries',
})
NOTE.update({
 'C24': 'Static; the equality of identifiers inside one group follows from '
        'the grouping key; numerical values of the stack are outside.',
})
NA.pop('C24', None)

TECH.update({
 'C04': 'finite-state dataflow over the container of computed correlations '
        '(clean, dirty, mixed) through the run; extraction of the look-up '
        'path and start time of existing correlations and evaluation for '
        'both orders of two traces; guard and effect analysis of the file '
        'writer',
})
NOTE.update({
 'C04': 'Static; covers orderly exits and the resume look-up. What HDF5 '
        'itself leaves behind when the process is killed inside a write is '
        'outside.',
})
NA.pop('C04', None)

TECH.update({
 'C25': 'extraction of the conditions and loop bounds under which a pair is '
        'taken and evaluation over all pairs of a covering set of traces '
        'against the definition of each method; typestate of the pair '
        'indices (fresh/stale) against changes of the traces',
})
NOTE.update({
 'C25': 'Static; the set of traces covers equal/different network, station, '
        'channel, component and codes that are prefixes of each other; '
        'wildcards in the requested list are outside the documented format.',
})
NA.pop('C25', None)

TECH.update({
 'C08': 'key-flow analysis of each writer/reader pair: the conditions under '
        'which a header key is stored, converted, skipped and loaded are '
        'evaluated for every key of the header model; attribute-to-key maps '
        'of writer and reader are extracted and compared; lossy conversions '
        'on the value path are forbidden',
})
NOTE.update({
 'C08': 'Static; numpy savez/load and h5py attributes are trusted to return '
        'what they were given. Keys outside CorrStats.defaults and the keys '
        'the package adds are judged like an ordinary key.',
})
NA.pop('C08', None)

TECH.update({
 'C23': 'extraction of the conditions under which a measurement is collected '
        'and evaluation for every order of time, series, value and '
        'coherence; role tracing of each part of a measurement to kernels, '
        'variance and solution; non-commutative normal form of the matrix '
        'products; dependency sets of cached values against their keys',
})
NOTE.update({
 'C23': 'Static; numerical quality of the inversion (conditioning, cutoff, '
        'kernel physics) is not judged. Several velocity changes processed '
        'in different windows or bands in one inversion are not covered.',
})
NA.pop('C23', None)
