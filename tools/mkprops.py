"""Writes /verif/properties.jsonl (kept as a script so that the wording is edited in one place)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, *mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=['pygeode/'+f for f in files], mechanism=[dict(name=n, where='pygeode/'+w) for n, w in mech])))

p('P01', 'Slicing a lazy variable equals slicing its array, values and coordinates',
  'For any variable, selecting with per-axis slices, integers, index lists, boolean masks and Ellipsis, through var.slice[...] or var[...], and any chain of such selections, yields exactly the elements, order, shape and dtype that numpy indexing applied axis by axis gives on the full array; var[...] drops the axes selected with an integer and var.slice[...] keeps them with length one. The axes of the result carry the coordinates and auxiliary arrays of exactly the selected positions, and keep their class and name.',
  ['programs', 'inputs', 'configurations'], 'all selectors (out-of-range, negative, strided, repeated, empty), all chains, all axis kinds, all coordinate families with distinct values, and every way a variable can hold its data (in memory, contiguous reads, view reads)',
  'Tests slice a handful of shapes with a handful of selectors; selection is resolved through coordinate matching and view splitting, so whether it is right depends on the combination of selector, coordinates, previous selections and storage protocol.',
  ['view.py', 'varoperations.py', 'axis.py', 'var.py', 'tools.c'],
  ('Views and index mapping', 'view.py:View'), ('SlicedVar', 'varoperations.py:SlicedVar'), ('Axis slicing', 'axis.py:Axis._getitem_asvar'), ('Coordinate mapping', 'tools.c:map_to'))

p('P02', 'Selecting from a derived variable equals deriving, then selecting',
  'For every lazy operation (arithmetic, reductions, climatologies, structural operations, smoothing, differences, interpolation, concatenation, and so on) applied to any input, reading any selection of the result returns exactly the corresponding elements of the fully evaluated result. This holds for every selection that indexing allows: strided, reversed, repeated and out of order.',
  ['programs', 'inputs'], 'all lazy operations and all compositions of two, crossed with all selections up to a bound on every output axis',
  'Unit tests evaluate derived variables in full or with one slice; each operation rewrites the requested view in its own way and only particular operation/selection pairs go wrong.',
  ['reduce.py', 'climat.py', 'varoperations.py', 'smooth.py', 'deriv.py', 'diff.py', 'intgr.py', 'interp.py', 'composite.py', 'concat.py', 'ufunc.py', 'timeutils.py', 'fft_smooth.py', 'spectral.py', 'ensemble.py'],
  ('getview of each derived variable', 'reduce.py'), ('View rewriting', 'view.py:View.map_to'))

p('P03', 'The memory limit never changes a result',
  'For every operation, the values, coordinates and output files produced do not depend on the configured maximum array size: processing an input in pieces of any size gives the same result (to rounding) as processing it at once. Every operation completes for every limit of at least one element.',
  ['configurations', 'inputs', 'programs'], 'all memory limits from one element to the whole array, all operations, input shapes and axis choices',
  'The default limit is far above any test array, so the tests only ever execute the single-chunk path; how an array is cut depends on the limit, the shape and the reduced axes.',
  ['tools.py', 'view.py', 'reduce.py', 'climat.py', 'stats.py', 'composite.py', 'formats/cfmeta.py', 'formats/netcdf4.py'],
  ('Chunk iteration', 'view.py:View.loop_mem'), ('Reduction loop', 'tools.py:loopover'))

p('P04', 'Keyword selection picks exactly the requested coordinates',
  'Selecting by axis keyword keeps, in axis order, exactly the positions described: a pair keeps every coordinate in the closed interval between its ends in either order, a single value the nearest floating-point coordinate (or all exactly equal ones of other types), l_ the union of single values, i_ an index, slice bounds with optional stride, or index list, n_ the complement, several keywords the intersection, and the name of an auxiliary array selects by that array. m_ averages over the kept positions and removes the axis, s_ removes it when one position is kept; an unknown keyword is an error rather than ignored.',
  ['inputs', 'programs'], 'all axis kinds and coordinates, all interval ends on, between and outside coordinates, all prefix combinations, all index triples within bounds',
  'Each form is tested once or twice on one grid; the meaning is a combination of prefix, value type, dtype and coordinate order.',
  ['axis.py', 'var.py', 'dataset.py'], ('Selector resolution', 'axis.py:Axis.get_slice'), ('Prefix handling', 'var.py:Var.__call__'))

p('P05', 'Selecting dates picks exactly the matching times',
  'On a time axis, selecting by calendar field (year, month, day, hour, ...) keeps exactly the times whose field matches, selecting by a date string keeps the time nearest that date, and a pair of date strings keeps exactly the times in the closed interval between the dates. This holds for every calendar, reference date, unit, time order and spacing, and for partial date strings, which denote the start of the period they name.',
  ['inputs', 'configurations'], 'all calendars, units, start dates around month/year/leap boundaries, all query dates in a window around the axis, all formats accepted',
  'Tests select a few dates on one axis per calendar; the answer depends on calendar arithmetic at month, year and leap boundaries and on unit scaling.',
  ['timeaxis.py', 'timeaxis.c', 'axis.py'], ('String conversion', 'timeaxis.py:CalendarTime.str_as_val'), ('Selector resolution', 'axis.py:Axis.get_slice'))

p('P06', 'Element-wise operations equal numpy broadcasting by axis name',
  'Arithmetic, comparisons and unary functions on variables and scalars give, at every point of the combined grid, exactly the numpy result for the operand values at the same coordinates; operands are matched by axis (not position), axes found in only one operand are broadcast, and the result has each axis once. For variables the result dtype is the one numpy gives for the operand dtypes; with a plain scalar it is at least as wide. Reflected operators, missing values and scalars give the values numpy gives.',
  ['inputs', 'programs'], 'all operators and functions, dtypes, operand axis sets and orders up to three axes, scalars on either side, special values (nan, inf, zero, negative)',
  'Tests combine a few variables with matching axes; broadcasting depends on the combination of axis sets, orders and classes.',
  ['ufunc.py', 'tools.py', 'view.py'], ('Operator wrapping', 'ufunc.py:UfuncVar'), ('Axis combination', 'tools.py:combine_axes'))

p('P07', 'Operands on different grids are aligned by coordinate, never by position',
  'When two operands share an axis with different coordinates, the result is defined on the smaller coordinate set if it is contained in the other, and every value combines the elements with equal coordinates, whatever the order and length of each axis. If neither set contains the other the operation is refused; no element is ever combined with one at a different coordinate.',
  ['inputs'], 'all pairs of coordinate sequences (subsets and permutations of a small universe), all axis kinds including time axes of different units and reference dates, generic, named and auxiliary-array axes',
  'Tests use identical or a single pair of different axes; silent misalignment shows only for particular subset/order combinations.',
  ['tools.py', 'tools.c', 'axis.py', 'timeaxis.py', 'ufunc.py'], ('Axis matching', 'tools.py:can_map'), ('Coordinate mapping', 'tools.c:map_to'), ('Time mapping', 'timeaxis.py:Time.map_to'))

p('P08', 'Reductions equal numpy reductions over the named axes',
  'mean, sum, min, max, variance, standard deviation, argmin and argmax (unweighted) and their nan-ignoring variants over any set of axes, named in any accepted way, equal the numpy result over those dimensions, with the remaining axes unchanged and in order. This holds for every shape, axis order, missing-value pattern, and numeric dtype.',
  ['inputs', 'programs'], 'all reductions, all axis subsets and naming forms, shapes up to 3-D, all nan patterns on small arrays, integer and float dtypes',
  'Tests reduce one float array over one or two axes; accumulation, dtype and nan handling differ per reduction and per pattern.',
  ['reduce.py', 'tools.py'], ('Reductions', 'reduce.py:ReducedVar'))

p('P09', 'Weighted means and variances apply the axis weights exactly',
  'Weighted mean, sum, variance and their nan-ignoring variants equal the formula sum(w*x)/sum(w) (respectively its second-moment form) over the reduced axes, where w is the product of the weights of the reduced axes or the weight variable given, restricted, for nan-ignoring forms, to the points present. Means use the weights of the axes being reduced by default, sums and variances when weights=True; weights are ignored when weights=False or None, follow the axis through any selection, and a common factor in the weights does not change a mean.',
  ['inputs', 'programs', 'configurations'], 'all weighted reductions, axis subsets, weight arguments (default, off, variables on any axis subset, any order), selections before reducing, nan patterns',
  'Tests check one weighted mean over latitude; which weights enter depends on the axes reduced, the argument form and the selection.',
  ['reduce.py', 'var.py', 'axis.py'], ('Weighted reductions', 'reduce.py'), ('Axis weights', 'var.py:Var.getweights'))

p('P10', 'Calendar dates and time values are in one-to-one, ordered correspondence',
  'For each calendar (standard, 365-day, 360-day, yearless), converting a time value to date fields and back returns the value, dates increase strictly with values, every valid date of the calendar occurs exactly once and no invalid one occurs; for the standard calendar the dates are the proleptic Gregorian ones. Fields outside their range are carried into the next larger field.',
  ['inputs', 'configurations'], 'every day over 2000+ years around every month, year, century and 400-year boundary, every second around day boundaries, all units, reference dates and fractional values',
  'Tests convert a few dates; calendar arithmetic fails at particular boundaries, for times before the reference date, or for particular units.',
  ['timeaxis.py', 'timeaxis.c'], ('Date conversion', 'timeaxis.c'), ('Python interface', 'timeaxis.py:CalendarTime'))

p('P11', 'Time axes mean the same dates in any unit and reference date',
  'Two calendar time axes that denote the same dates compare equal and align element by element whatever units and reference date they use, and axes that denote different dates do not compare equal. Re-expressing an axis with another unit or reference date (reltime, renormalised start dates) changes only the numbers, never the dates.',
  ['inputs', 'configurations'], 'all pairs of units and reference dates, values on either side of the reference date, all subsets and orders',
  'Tests re-express one axis; equality and mapping combine unit factors, integer reference dates and tolerance.',
  ['timeaxis.py', 'timeaxis.c', 'timeutils.py'], ('Relative time', 'timeaxis.py:Time.reltime'), ('Equality and mapping', 'timeaxis.py:Time.map_to'))

p('P12', 'Climatologies and time means bin every time step exactly once',
  'Daily, monthly, seasonal, diurnal and annual means, standard deviations and climatologies group the input times exactly by the calendar fields they are named for: every input time step contributes to exactly the bin of its own date and each output value is the named statistic of precisely those input values. The output time axis lists exactly the bins that occur, in chronological order, with their dates.',
  ['inputs', 'configurations'], 'all operations, calendars, time samplings (daily, 6-hourly, monthly, irregular, gaps, partial first/last period), time position among the axes, nan-ignoring variants',
  'Tests run one regular multi-year series; binning mistakes appear for gaps, partial periods, year boundaries (DJF), reordered times or calendars.',
  ['climat.py', 'timeutils.py', 'timeaxis.py', 'tools.py', 'tools.c', 'timeaxis.c'], ('Binned reductions', 'climat.py:TimeOp'), ('Bin mapping', 'timeaxis.py:Time.common_map'), ('Partial sums', 'tools.c:partial_sum'))

p('P13', 'Trends and anomalies decompose the data exactly',
  'An anomaly plus the climatology it is relative to, matched by calendar position, gives back the input at every time, and a trend plus detrended series does likewise. Trend coefficients equal the least-squares fit of the data against time at every grid point.',
  ['inputs', 'configurations'], 'all anomaly, trend and detrend operations, calendars, samplings, and data (linear, periodic, irregular)',
  'Tests check one series; the match between a time and its climatological bin depends on calendar and sampling.',
  ['climat.py', 'timeutils.py'], ('Anomalies', 'climat.py'), ('Trends', 'climat.py:trend'))

p('P14', 'Concatenation joins segments without losing, repeating or moving data',
  'Concatenating variables along an axis gives, for every position of the joined axis, the value held at that position by the segment it came from, in the order given, for any number, length, order and axis position of segments; reading any selection of the result agrees with the same selection of the joined array. Common attributes are kept and conflicting ones dropped, and segments that disagree on other axes are refused.',
  ['inputs', 'histories'], 'all partitions of an array into segments, all segment orders, all selections, all axis kinds, nested concatenation',
  'Tests join a couple of adjacent time segments; reads cross segment boundaries in as many ways as there are partitions and selections.',
  ['concat.py', 'axis.py', 'timeaxis.py', 'dataset.py'], ('ConcatVar', 'concat.py'), ('Axis concatenation', 'axis.py:Axis.concat'))

p('P15', 'Datasets stay consistent under every sequence of edits',
  'After any sequence of adding, removing, replacing, renaming and subsetting, a dataset contains exactly the variables a dictionary-and-list model predicts, each reachable by its name, by iteration and by attribute with one unambiguous meaning, with unique variable names and unique axis names. Methods (element-wise functions included) applied to a dataset equal applying them to each variable, and the source dataset is not changed by operations that return a new one.',
  ['histories', 'programs'], 'all edit sequences up to a depth over a small alphabet of variables with clashing names and axes',
  'Tests perform single edits; naming conflicts and axis sharing depend on the order of several edits.',
  ['dataset.py'], ('Dataset', 'dataset.py:Dataset'), ('Naming', 'dataset.py:Dataset.__init__'))

p('P16', 'Structural operations keep every value with its coordinates',
  'transpose, squeeze, extend, sorted, replace_axes, rename, rename_axes, fill, unfill and as_type, in any sequence, keep each value attached to the coordinates it had (or their explicit replacement): looking a value up by coordinate before and after gives the same value. The axes come out in the documented order, with the requested names, and metadata is preserved.',
  ['programs', 'inputs'], 'all sequences of structural operations up to a depth on up to 3-D variables with sorted, reversed and unsorted axes',
  'Tests apply single operations; errors show in compositions (sort after slice, squeeze after transpose, extend in the middle).',
  ['varoperations.py', 'view.py'], ('Structural operations', 'varoperations.py'))

p('P17', 'Operations never modify their inputs and evaluation is repeatable',
  'Building or evaluating any derived variable leaves the values, axes, auxiliary arrays, attributes and plot attributes of its inputs, and arguments passed by the caller, unchanged; modifying an array or attribute of a result never changes the input. Evaluating the same variable again, or after evaluating other selections or other variables, gives the same result.',
  ['histories', 'programs'], 'all operations, all pairs of evaluations in either order, mutation of every returned array and attribute dictionary',
  'Tests evaluate once and rarely look at inputs again; aliasing appears only on the second evaluation or for specific view sequences.',
  ['var.py', 'view.py', 'reduce.py', 'smooth.py', 'deriv.py', 'composite.py', 'climat.py'], ('Shared read-only arrays', 'view.py:View.get'), ('Metadata copies', 'var.py:copy_meta'))

p('P18', 'Saving to netCDF and opening again returns the same dataset',
  'Saving a dataset to a netCDF file with either netCDF interface and opening it with either returns the same variables, names, values, dtypes, dimension order, coordinates, axis classes (those with a CF representation; the others become the general axis class), time calendars and dates, auxiliary arrays, missing values and attributes, for both netCDF-3 and netCDF-4 formats, with and without compression, unlimited dimensions and groups, however little memory is used at a time and however often it is repeated. Integer types that netCDF-3 lacks are stored in a type that holds them, date fields that were not given are filled in, and attributes that CF prescribes are added. Reading any selection of the opened variables equals the selection of the original; varlist, namemap, dimtypes and value_override affect exactly the variables and axes they name.',
  ['inputs', 'configurations', 'histories'], 'all axis kinds, calendars, dtypes, missing-value patterns, format versions, options, and repeated save/open cycles',
  'Tests round-trip a few datasets; loss depends on the combination of axis class, calendar, dtype, packing and format version.',
  ['formats/netcdf4.py', 'formats/netcdf.py', 'formats/cfmeta.py'], ('netCDF-4 interface', 'formats/netcdf4.py'), ('CF encoding', 'formats/cfmeta.py'))

p('P19', 'CF metadata is decoded to the axes and values the convention defines',
  'Decoding CF metadata assigns to each dimension the axis class, calendar, units, reference date and auxiliary arrays that its (not contradictory) attributes specify, leaves alone what it does not know, and gives each packed variable the values value*scale_factor+add_offset, to the precision of the data or of the attributes, with exactly the fill and missing values missing; encoding writes attributes that are decoded to the same axes again. Packing to 16-bit integers stores every value to within one quantisation step and keeps missing values missing.',
  ['inputs', 'configurations'], 'all combinations of units strings, calendars, standard names, scale, offset and fill attributes and dtypes',
  'Tests decode a few sample headers; each attribute combination takes a different branch.',
  ['formats/cfmeta.py', 'formats/__init__.py'], ('decode_cf', 'formats/cfmeta.py:decode_cf'), ('encode_cf', 'formats/cfmeta.py:encode_cf'), ('Packing', 'formats/__init__.py:PackVar'))

p('P20', 'A multi-file dataset equals the concatenation of its files',
  'Opening many files as one dataset gives the same values as concatenating the individual files along their time axis in chronological order, whatever the order the files are listed in, how the times are distributed among them, and which selection is read. Only the files covering the selection need be consistent with it.',
  ['inputs', 'configurations', 'histories'], 'all partitions of a series into files, all file orders, both opening methods, all selections',
  'Tests open a pair of files; the file/time mapping is exercised only by selections crossing particular boundaries.',
  ['formats/multifile.py'], ('openall', 'formats/multifile.py:openall'), ('open_multi', 'formats/multifile.py:open_multi'))

p('P21', 'Conversion to and from xarray preserves values, coordinates and attributes',
  'Converting a variable or dataset to xarray gives the same values, dimension order, names, coordinates, auxiliary coordinates and attributes, evaluated lazily or not and in chunks of any size; converting back returns an equal variable, including its calendar dates (times xarray cannot represent, such as those of climatologies, stay encoded numbers). Converted variables computed together do not affect each other.',
  ['inputs', 'configurations'], 'all axis kinds, calendars, dtypes, memory limits and selections',
  'There is at most a smoke test; chunk boundaries depend on shape and memory limit.',
  ['ext_xarray.py'], ('to_xarray', 'ext_xarray.py:to_xarray'), ('from_xarray', 'ext_xarray.py:from_xarray'))

p('P22', 'Interpolation passes through the data and reproduces known functions',
  'Interpolating at the input coordinates returns the data; linear interpolation equals the piecewise-linear function through the data at every target inside the range for any order of input and output coordinates, position of the axis, or coordinate-dependent input and output fields, and cubic interpolation reproduces linear data. Targets outside the range are missing unless extrapolation slopes are given, in which case they follow those slopes from the end points.',
  ['inputs', 'configurations'], 'all interpolation types, axis positions, input orders, target positions (on, between, outside), extrapolation settings, nan patterns, 1-D to 3-D',
  'Tests interpolate one smooth profile; bracket search, ordering and extrapolation have separate branches in C.',
  ['interp.py', 'interp.c'], ('Interp', 'interp.py:Interp'), ('C kernel', 'interp.c'))

p('P23', 'Integrals are exact for the chosen rule, direction and range',
  'integrate and cumsum along an axis equal the documented quadrature (trapezoid or rectangle with the given spacing) and running sum at every point, for any axis position, coordinate order and spacing, starting value and direction. Reading any part of the result gives the same values as reading all of it.',
  ['inputs', 'configurations'], 'all rules, directions, initial values, axis positions, increasing/decreasing/irregular coordinates, time axes in any unit, all selections',
  'Tests integrate one profile in full.',
  ['intgr.py'], ('IntegrateVar', 'intgr.py'))

p('P24', 'Derivatives and differences use the right neighbours and spacing',
  'deriv and diff along any axis use exactly the neighbouring points and coordinate spacings of the documented stencil at every position, including both ends, for any axis position, coordinate order, spacing and difference order, and derivatives of linear (second order: quadratic) functions are exact. Reading any selection agrees with reading everything.',
  ['inputs', 'programs'], 'all difference orders, axis positions, coordinates, selections',
  'Tests differentiate one field in full; the stencil is applied to the requested selection, so each selection is a different path.',
  ['deriv.py', 'diff.py'], ('DerivativeVar', 'deriv.py'), ('DiffVar', 'diff.py'))

p('P25', 'Smoothing and Fourier filtering are the documented linear operators',
  'smooth equals convolution of the data with the normalised kernel along the axis with the documented end treatment at every point, and fft_smooth keeps exactly the harmonics up to the limit; both are linear, leave constants unchanged, act on each series independently and do not depend on the position of the axis or the selection read.',
  ['inputs', 'configurations'], 'all kernels and window lengths, end treatments, axis positions, series lengths (odd, even, shorter than window), selections',
  'Tests smooth one series with one kernel.',
  ['smooth.py', 'fft_smooth.py'], ('Smooth', 'smooth.py'), ('FFT filter', 'fft_smooth.py'))

p('P26', 'Composites, lags and flattened axes place every sample correctly',
  'composite collects for every event and offset exactly the values at the event position plus that offset, lag shifts the series by exactly the lag with missing or truncated ends as documented, and flatten enumerates every combination of the flattened axes exactly once in row-major order. This holds for any axis position, event list, length and selection.',
  ['inputs', 'configurations'], 'all event lists, windows (including before the start and past the end), lags of both signs, axis positions, selections',
  'Tests use one event list; boundary events and selections are combinatorial.',
  ['composite.py', 'timeutils.py'], ('Composite', 'composite.py'), ('Lag', 'timeutils.py:lag'))

p('P27', 'Grid constructors give the documented nodes and exact weights',
  'Gaussian latitudes and weights integrate every polynomial of degree below 2n in sine of latitude exactly, regular latitude and longitude grids have exactly the stated count, spacing, ends, order and weights, and rotating the longitude origin permutes the data without changing the field as a function of longitude modulo 360.',
  ['inputs', 'configurations'], 'all grid sizes up to a bound, orders, pole and repetition options, all rotation origins on and between grid points',
  'Tests construct one grid of each kind.',
  ['axis.py', 'quadrule.c', 'quadrulepy.c'], ('Grid constructors', 'axis.py:gausslat'), ('Rotation', 'axis.py:rotatelon'))

p('P28', 'Formatting a date and parsing it back returns the same date',
  'For every calendar, formatting a time with any understood format that determines it and parsing the text back yields the same instant, each format directive prints the field it names (with the documented padding; empty where the axis has no such field), different dates never share a text, and text that is no date is refused. Time axes built from such text (n steps from a date, or a range between dates) hold exactly the requested times.',
  ['inputs', 'configurations'], 'all directives, all calendars, all dates around boundaries, all units',
  'Tests format a few dates.',
  ['timeaxis.py', 'axis.py'], ('Formatting', 'timeaxis.py:CalendarTime.formatvalue'), ('Parsing', 'timeaxis.py:CalendarTime.str_as_val'))

p('P29', 'Correlation, regression and significance tests equal their formulas',
  'correlate, regress, multiple_regress, difference, paired_difference and isnonzero return, at every grid point, the textbook statistic of the samples along the given axes (coefficient, t value, degrees of freedom, p value), independent of chunking, axis order and the presence of other axes. Adding an offset or positive scale to a predictor changes the results only as the formulas imply.',
  ['inputs', 'configurations'], 'all statistics, axis subsets and orders, sample sizes, memory limits, nan treatment, output selections',
  'Tests check one or two samples; each output takes a separate branch and chunked accumulation is never exercised.',
  ['stats.py'], ('Statistics', 'stats.py'))

p('P30', 'EOF and SVD decompositions reproduce the data they decompose',
  'EOFs are orthonormal under the weights used, principal components are uncorrelated, eigenvalues are sorted and equal the explained variances, and the full set of modes reconstructs the input; the different solvers agree up to sign. SVD modes are orthonormal on each side and their singular values are those of the cross-covariance matrix.',
  ['inputs', 'configurations'], 'all solvers, mode counts, weightings, grid shapes and record axes over a family of small data matrices with distinct spectra',
  'Tests decompose one field with one solver.',
  ['eof.py', 'eof.c', 'svd.py', 'svd.c'], ('EOF', 'eof.py'), ('SVD', 'svd.py'))

p('P31', 'The file scanner reflects the files on disk, whatever its manifest says',
  'Scanning a set of data files (data_scanner.from_files), with any manifest left by an earlier scan, yields the same datasets as scanning them afresh: files added, changed (with a newer or an older time stamp) or removed since are all accounted for, also if the scan was interrupted or the manifest is damaged. The datasets are exactly the largest combinations of variables and coordinates for which the files have data, every value read through them equals that in the file that holds it, and queries return the best dataset that meets the requirement.',
  ['histories', 'crash_points', 'inputs'], 'all sequences of adding, rewriting, touching and removing files between scans, all crash points and torn manifests, all small collections of files, with and without manifest',
  'There are no tests of the scanner; staleness needs a history of several scans.',
  ['formats/data_scanner.py'], ('Manifest', 'formats/data_scanner.py:_Manifest'), ('Domains', 'formats/data_scanner.py:_get_domains'), ('Values', 'formats/data_scanner.py:_DataVar.getview'))

p('P32', 'Splitting and rejoining time, and dropping leap days, keep every other sample',
  'Splitting a time axis into two fields (such as year and day) and joining it again returns the original series, each element being found at the position its date names, with missing entries where no sample exists. Removing leap years or days removes exactly the samples dated on leap days and nothing else, and converts the rest to the matching 365-day dates.',
  ['inputs', 'configurations'], 'all calendars, samplings, start dates, axis positions, selections',
  'Tests cover one regular series.',
  ['timeutils.py'], ('SplitTime', 'timeutils.py'), ('removeleapyears', 'timeutils.py'))

p('P33', 'Time axis ticks fall exactly on calendar boundaries',
  'Automatic and explicit time tick locators return, in increasing order, only values whose dates lie on the stated calendar step, include every such date of the visible interval (its end excepted), settle near the wanted number whatever views came before, and always terminate; labels name the date at the tick.',
  ['inputs', 'configurations'], 'all calendars, units, visible intervals from minutes to centuries, tick specifications',
  'Tests cover a few intervals.',
  ['timeticker.py'], ('Locators', 'timeticker.py'))

p('P34', 'Coordinate equality and mapping obey their laws',
  'Axis equality is reflexive and symmetric, ignores differences below the tolerance and detects any difference above it in coordinates, auxiliary data, class or (for generic axes) name. Mapping one axis to another returns, in the order of the target, exactly the positions of equal coordinates, and merged or common maps pair exactly the equal coordinates of both sides.',
  ['inputs'], 'all pairs of axes over a small universe of values, kinds, names, auxiliary arrays and orders',
  'Tests compare a few axes; equality and mapping decide alignment for every other operation.',
  ['axis.py', 'tools.py', 'tools.c'], ('is_equivalent', 'axis.py:is_equivalent'), ('map_to', 'tools.c:map_to'), ('common_map', 'tools.c:common_map'))

p('P35', 'Reads from several threads at the same time give the values a single thread gets',
  'When several threads read variables at the same time - parts of one variable, variables of one file or of several, derived variables, chunks of an xarray conversion, multi-file variables - or open, close and save datasets while others read, every thread gets exactly the values it would get alone: none fails, waits for ever, or uses the netCDF library while another does (the library is not thread safe).',
  ['schedules'], 'all interleavings of two threads within a preemption bound, with scheduling points at each lock operation, library call and source line',
  'Tests are single-threaded; converted xarray datasets are read by a pool of threads.',
  ['formats/netcdf.py', 'formats/netcdf4.py', 'formats/multifile.py', 'ext_xarray.py', 'libhelper.py'], ('NCVar.getvalues', 'formats/netcdf.py:getvalues'), ('Multifile_Var.getview', 'formats/multifile.py:getview'), ('ArrayFunc', 'ext_xarray.py'))

p('P36', 'Ensembles keep members separate and in order',
  'An ensemble of variables is equal, member by member and in the order given, to the variables it was built from, for every selection on every axis including the ensemble axis, and statistics over the ensemble axis equal the statistics over the members. The values have a type that holds those of every member, attributes on which all members agree are kept, and members whose names or axes differ are refused.',
  ['inputs', 'programs'], 'all member counts, axis orders, dtypes, selections',
  'Tests build one ensemble and read it in full.',
  ['ensemble.py'], ('EnsembleVar', 'ensemble.py'))

with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
