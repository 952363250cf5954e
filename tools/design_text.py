# TEXT[property] = (oracle, why it reaches what tests cannot, cost)
TEXT = dict(
P01=('A tuple of position lists, one per dimension, composed by list indexing; expected values are `array[np.ix_(...)]` of the source array; coordinates, auxiliary arrays and weights are picked by the same positions.', 'Chains of strided, reversed, repeated and masked selections in all orders; the suite tries a handful of contiguous ones.', '15 s / 3 min'),
P02=('The same operation evaluated as a whole, indexed by numpy.', 'Every lazy operation has its own `getview`, each of which must invert the selection; errors show for particular positions (strided, repeated, reversed) only.', '40 s / 10 min'),
P03=('The result under no limit (exact for type, shape and axes; to rounding for values).', 'The limit decides how the chunk loop cuts each axis; every limit reaches every alignment of chunks and axes, including remainders and one element at a time.', '25 s / 3 min'),
P04=('A set semantics of the keywords over the list of coordinates (closed intervals, nearest, union, complement, intersection), written from the documentation.', 'Orders, ties, midpoints, values outside, reversed intervals and pairs of keywords.', '35 s / 6 min'),
P05=('Python date arithmetic per calendar (`mc/cal.py`) and linear scan over all times.', 'Partial dates, intervals with ends on, before and after the samples, all calendars, units and orders.', '15 s / 2 min'),
P06=('numpy broadcasting after transposing each operand to the union of axes; numpy result types.', 'All pairs of axis arrangements and types, reflected operators, special values.', '12 s / 1 min'),
P07=('Coordinates as dictionary keys: value at a coordinate in both operands, or refusal.', 'Orders, subsets, tiny spacings, and calendar times that agree as dates but not as numbers.', '35 s / 4 min'),
P08=('numpy (nan-)reductions over the named dimensions of the array, in double precision.', 'All axis subsets in every naming and order, all missing-value patterns, integer and low-precision types.', '12 s / 1 min'),
P09=('The formula sum(wx)/sum(w), weights expanded to the full grid.', 'Every subset of reduced axes against every subset that has weights, with all missing-value patterns.', '12 s / 2 min'),
P10=('Independent day counting in integers (`mc/cal.py`).', 'Every day of 9000 years and every carry; the suite tests a few dates.  The C code is exact only if all are.', '12 s / 1 min'),
P11=('Dates as tuples of fields; axes equal iff the lists of dates are.', 'All pairs of units and reference dates, displacements of one second in 120000 years.', '25 s / 4 min'),
P12=('A dictionary from date fields to the values of the bin; numpy statistics of the lists.', 'Unordered and repeated times, gaps, partial bins, chunk limits that split bins, all missing-value patterns.', '8 s / 40 s'),
P13=('Mean of each calendar position, the normal equations of the linear fit in extended precision.', 'Leap days, units and reference dates, orders, chunks.', '20 s / 1 min'),
P14=('`np.concatenate` of the segments, then indexing; dictionary intersection for attributes.', 'Every cut and order of segments, every selection crossing the seams, mixed storage.', '30 s / 5 min'),
P15=('An ordered dictionary of variables and a list of axes; names made unique as documented.', 'All sequences of edits up to depth 3 (4): name clashes arise from interactions of edits, not from single ones.', '20 s / 3 min'),
P16=('A dictionary from coordinate tuples to values plus a list of axis descriptions.', 'All sequences of operations up to depth 3 (4), on empty, repeated and descending axes.', '30 s / 7 min'),
P17=('A deep snapshot of the inputs before; the first evaluation for repeatability.', 'Every operation x every order of requests; aliasing shows only after the second request or after writing into the result.', '30 s / 3 min'),
P18=('The dataset before saving; the file read by netCDF4/cftime directly.', 'Every axis class in every position x both interfaces x formats x repeated cycles x every selection.', '55 s / 4 min'),
P19=('A table of the convention (units, standard names, axis letters), cftime for dates, the packing formula in double precision.', 'Every non-contradictory combination of the attributes that identify an axis; all packings x types x selections.', '35 s / 40 s'),
P20=('The concatenation of arrays built in memory; a log of the files opened.', 'Every division of a series into files x every selection x damage to every subset of other files.', '150 s / 10 min'),
P21=('The variable itself, numpy indexing, xarray accessors.', 'Every chunking and every selection of the lazy array, joint computation of several conversions.', '100 s / 6 min'),
P22=('An independent implementation of each type (piecewise linear, Lagrange polynomial, splines by a dense solve, Akima).', 'All missing patterns per profile, mixed directions, fields of target coordinates, buffers of the C code.', '30 s / 3 min'),
P23=('Sums by the documented rule, element by element.', 'Every order of coordinates, every part read alone, start values on any subset of axes.', '30 s / 4 min'),
P24=('The stencil formula, element by element.', 'Every order and position of the axis, every part read alone (the ends move with the selection if done wrongly).', '25 s / 4 min'),
P25=('The operator matrix: images of every unit impulse, against the kernel and the Fourier sum.', 'Every kernel length and number of harmonics relative to the axis length, every part.', '12 s / 2 min'),
P26=('Position arithmetic: event + offset, position + lag, row-major enumeration.', 'All event sets, window combinations and parts read alone.', '20 s / 3 min'),
P27=('The integrals of monomials and Legendre polynomials, independently computed nodes, positions modulo 360.', 'Every size, origin and option.', '12 s / 3 min'),
P28=('The date fields of `mc/cal.py` printed by an independent formatter; text parsed back.', 'Every day of chosen years, every directive alone and in context, every calendar.', '30 s / 5 min'),
P29=('The textbook formula in plain Python per grid point, with scipy distribution functions.', 'Every sample of few values (with ties, missing, constant), every chunking, axis order and subset; the suite has no test of this module.', '15 s / 50 s'),
P30=('`numpy.linalg.svd` of the reshaped, weighted matrix; orthogonality and reconstruction are checked on their own.', 'Every small integer matrix with determined modes, including zeros, rank deficiency and zero first elements, every record axis, weights and chunks.', '25 s / 2 min'),
P31=('The set of files as a dictionary; maximal boxes of available data by brute force; each scan is also compared with a fresh one.', 'Histories of file changes and crash points with a persistent manifest: no test of this module exists.', '60-140 s / 8 min'),
P32=('A dictionary from dates to values.', 'Partial years, leap days, every order and part read alone.', '40 s / 3 min'),
P33=('All dates of the window on the step by brute force from `mc/cal.py`.', 'Window ends on and one tick beside every boundary, histories of views (the choice of step has memory).', '60 s / 8 min'),
P34=('A specification of equality; dictionaries of coordinates.', 'All ordered pairs of a catalogue: symmetry cannot be sampled.', '5 s / 40 s'),
P35=('The values a single thread gets; a monitor of library overlap, deadlock and lost wake-ups.', 'Schedules are not under a test\'s control at all.', '130-250 s / 13 min'),
P36=('The members, indexed by numpy and stacked.', 'Every permutation and selection of members with selections of other axes, mixed types.', '40 s / 3 min'),
)
LIMITS = dict(
P07='Distances between coordinates below the documented tolerance (1e-7 relative) are equal by definition.',
P08='Single-pass cancellation of float64 variances with offsets beyond 1e7 standard deviations.',
P10='The tolerance of inclusive ranges (`range(..., inc=True)`), stated nowhere.',
P13='Reconstruction from trend coefficients on an axis of another start date.',
P16='The order of ties in `sorted`; `squeeze(coord=value)` also drops other degenerate axes; `keep_old_name` (known finding).',
P17='Axis objects are shared between variables by design; that an axis edited in place shows in all of them is not an error here.',
P18='bool and complex have no netCDF type; netCDF-3 needs the unlimited dimension first; overwriting a file that is open elsewhere; 64-bit integers beyond 2^53 in netCDF-3; non-text long_name; clash:save (known finding).',
P19='"days since Y-M-D H" without minutes, one-digit hours of time zones, sub-second reference dates; unknown calendars and units are left alone; contradictory attributes are unspecified.',
P20='Patterns are searched for in the whole path, so directories are named without digits; the first file by name is opened to find the calendar; misalignment below 11% of a step; monthly data in yearly files is not supported by the format.',
P21='units stand both in the attributes and the member after conversion back; year-less dates of m365/m360 calendars become year-0 dates of cftime.',
P22='Complex data (GSL is real); periodic splines of two points (GSL refuses); the documentation of `transpose` is inverted with respect to the tested behaviour.',
P26='A composite with a list of lengths refers to events in axis order.',
P27='`gausslat(0)` ends the process in C.',
P28='Negative years are printed but not parsed; full month names; the default format of some classes cannot be parsed.',
P29='The p value at |r|=1 is limited by the saturated denominator (documented in the code); factors that do not divide the sample size; integer axis ids for two variables (ambiguous); difference and paired_difference with axes only one variable has; regress p of constant data; correlation p of two values; multiple_regress with missing values or singular regressors.',
P30='Signs of modes; modes of (nearly) equal singular values; EOF_guess with fewer modes than the rank (an approximation by design); weights along the record axis; SVD of correlation with weights; convergence for slowly decaying spectra.',
P31='A rewrite that leaves both time stamp and size as they were; data comes back as float64; another opener or interface needs another manifest (documented); relative names depend on the working directory.',
P32='The name of a renamed time axis after removeleapyears; jointimeaxes needs the year axis before the day axis.',
P33='DayOfYear locator (known finding); month multiples that do not divide 12; up to two ticks past the end of the window; histories are of windows up to 11 years.',
P34='`tools.common_map` is dead code.',
P35='Two threads; overlap inside the C library is modelled by the monitor (a call is an interval), not observed; dask runs with its synchronous scheduler inside each controlled thread.',
)
ALSO = {}
MISSED = ''
ALARMS = '''## False alarms met and removed

While the checks were built, these disagreements turned out to be the check's fault; the check or the statement was corrected:

* P28: "dates in text order" is no property of the formats offered (dropped from the statement); month names in full are not a directive.
* P20: a temporary directory whose random name contained digits matched the file-name pattern (directories are now named by letters).
* P26: windows of a composite for events in an order other than that of the axis (statement now says events are in axis order).
* P33: the end of the window is exclusive, and at most two ticks beyond it are drawn outside the visible part.
* P10: tolerance of inclusive ranges.
* P19: attributes that contradict one another have no defined meaning (combinations are filtered by a consistency table).
* P30: modes of equal singular values, and EOF_guess below full rank, are not determined; comparisons are restricted to spectra with gaps.
* P29: p values of perfect correlations are saturated on purpose.

## Not covered

The OpenDAP client (needs a server; no network), HDF4, GRIB and matplotlib drawing (no libraries or no numeric guarantee), and the
progress bars.  Nothing in them is claimed.
'''
