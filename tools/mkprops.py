#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the wording)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=('inputs',), state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    assert len(title) <= 80, title
    P.append(d)

EQ = 'mtoolkit/eqcatalog.py'; JB = 'mtoolkit/jobs.py'; DC = 'mtoolkit/scientific/declustering.py'
CU = 'mtoolkit/scientific/catalogue_utilities.py'; CO = 'mtoolkit/scientific/completeness.py'
RE = 'mtoolkit/scientific/recurrence.py'; MM = 'mtoolkit/scientific/maximum_magnitude.py'
FC = 'mtoolkit/scientific/fault_calculator.py'; WF = 'mtoolkit/workflow.py'; CF = 'mtoolkit/catalog_filter.py'
SM = 'mtoolkit/source_model.py'; NR = 'nrml/reader.py'; NW = 'nrml/writer.py'; NX = 'nrml/nrml_xml.py'
SF = 'mtoolkit/geo/simple_fault.py'; TR = 'mtoolkit/geo/tectonic_region.py'

p('C01', 'A catalogue row is accepted exactly when its compulsory fields are valid',
  'Reading a catalogue row succeeds exactly when every compulsory field converts to its type and lies in its documented range: '
  'eventID and Identifier positive integers, year in -10000..present, month 1-12, day 1-31 (1-29 in February), hour 0-23, minute 0-59, '
  'longitude in [-180, 180], latitude in [-90, 90], depth greater than zero, Mw a number. '
  'Any other row stops the reading with the validation error, and an accepted row carries each compulsory value unchanged.',
  'every row: arbitrary integers and decimals, and unconvertible, empty or missing cells, in any compulsory column',
  'The tests read a few fixed files; the accept/reject boundary of eleven fields and the pairs of fields that interact (month and day) is a region, not a sample.',
  [EQ], [('type conversion', 'EqEntryReader.convert_values'), ('range checks', 'EqEntryReader.check_*'), ('raise on failed check', 'EqEntryReader.read')],
  observe=['entries yielded by EqEntryReader.read', 'EqEntryValidationError'])
p('C02', 'Bad optional fields are blanked, and nothing else changes',
  'An optional catalogue field that is missing, does not convert, or is out of range never rejects the row: it is replaced by an empty value '
  '(0.0 for sigmaMw), where seconds must lie in [0, 60), and depth and magnitude uncertainties and ellipse axes must not be negative (timeError and magnitudes may be any number). '
  'The three error-ellipse fields are blanked together when the strike is missing or outside [0, 360], an axis is missing or negative, or the minor axis exceeds the major one. '
  'Every valid optional value, and every other field of the row, is kept unchanged.',
  'every row with valid compulsory fields and arbitrary optional cells',
  'Tests blank a handful of cells; which combination of cells is blanked is decided by the values of up to three fields together.',
  [EQ], [('optional conversion', 'EqEntryReader.convert_values'), ('blanking checks', 'EqEntryReader.check_positive_value, check_second, check_epicentre_error_location, check_sigma_mw')])
p('C03', 'Catalogue header, row order and error location',
  'A catalogue is read only if its first line is exactly the 25 documented column names in order (surrounding blanks allowed); otherwise it is refused as malformed. '
  'Each data line gives one entry, in file order, with each value under its own column name. '
  'The validation error names the offending field and its line number, counting the header as line 1.',
  'every header (any column renamed, dropped, swapped or repeated) and every position of the first invalid row and field in the file',
  'Tests use one malformed header and one invalid line; a shift by one or an accepted permutation shows only for other positions.',
  [EQ], [('header check', 'EqEntryReader.validate_csv_catalog'), ('line counting', 'EqEntryReader.read'), ('error message', 'EqEntryValidationError')])
p('C04', 'Writing a catalogue and reading it back gives the same entries',
  'Entries accepted by the catalogue reader, written by the catalogue writer and read again, come back equal: same number, same order, same value in each of the 25 fields, '
  'blank optional fields still blank.',
  'every list of valid entries, with any optional fields blank',
  'The tests compare one written file with one expected file.',
  [EQ], [('column order on write', 'EqEntryWriter.write_rows'), ('reader', 'EqEntryReader.read')])
p('C05', 'The stored catalogue is exactly the entries kept by preprocessing',
  'The preprocessed catalogue file contains exactly the entries of the input catalogue that preprocessing selected (selection mark zero), '
  'each once, in the order of the input catalogue and with their values unchanged; no other entry is in it.',
  'every catalogue and every selection vector of its length',
  'Tests store one catalogue under one selection.',
  [JB, EQ], [('selection of indexes', 'jobs.store_preprocessed_catalog'), ('writer', 'EqEntryWriter.write_rows')],
  state=[('selected_eq_vector', '0 for each entry kept, 1 for each removed', 'Context')])
p('C06', 'Each row of the numeric catalogue is its entry',
  'The numeric catalogue has one row per catalogue entry, in the same order, whose columns are that entry\'s year, month, day, longitude, latitude, Mw and sigmaMw. '
  'The pristine catalogue and the working catalogue start equal and are independent: changing one leaves the other as it was. '
  'The default completeness table is the single row of the earliest year and smallest magnitude, and by default no event is flagged.',
  'every catalogue of entries', 'Tests build one matrix from one file.',
  [JB], [('column list', 'jobs.CATALOG_MATRIX_FIXED_COLOUMNS'), ('matrix creation', 'jobs.create_catalog_matrix'), ('defaults', 'jobs.create_default_values')])

p('D01', 'Gardner-Knopoff clusters are well formed',
  'Every event gets a flag in {-1, 0, 1} and a cluster number, cluster numbers used being 1..K without gaps; an event outside every cluster has number 0 and flag 0. '
  'Each cluster has at least two events, exactly one of which has flag 0, the mainshock, and no member of the cluster is larger than it. '
  'The flag of a member is -1 exactly when it precedes its mainshock in time and 1 otherwise.',
  'every catalogue (dates, locations, magnitudes incl. ties) up to the stated number of events, all window options and foreshock proportions',
  'Tests decluster fixed catalogues; overlapping clusters, ties and larger later events arise in configurations they do not contain.',
  [DC], [('cluster construction', 'gardner_knopoff_decluster'), ('not-in-cluster condition', 'gardner_knopoff_decluster')],
  state=[('vcl', 'cluster number of each event', 'gardner_knopoff_decluster'), ('flagvector', 'role of each event', 'gardner_knopoff_decluster')])
p('D02', 'Gardner-Knopoff removes exactly the events inside a larger event\'s windows',
  'Taking events from the largest to the smallest, each event not yet in a cluster forms a cluster with all smaller events, not yet in a cluster, which lie within its distance window and '
  'not later than its time window after it nor earlier than the foreshock proportion of that window before it; all others stay out. '
  'Both window limits are inclusive, and the windows are those of the configured option at the magnitude of the larger event.',
  'every catalogue with distinct magnitudes up to the stated number of events, window options and foreshock proportions',
  'Which events are within whose window is a function of all pairs of dates, locations and magnitudes.',
  [DC, CU], [('time window', 'gardner_knopoff_decluster'), ('distance window', 'gardner_knopoff_decluster, haversine'), ('magnitude order', 'argsort')])
p('D03', 'Afteran clusters are well formed and follow the moving time window',
  'Taking events from the largest to the smallest, each event not yet in a cluster claims, among smaller events not yet in a cluster and within its distance window, the aftershocks '
  'reached by steps forward in time from it each no longer than the time window, and the foreshocks reached likewise backward; they form a cluster if there are any. '
  'Aftershocks (events not before the mainshock) have flag 1, foreshocks -1, mainshocks and unclustered events 0; cluster numbers are 1..K without gaps and 0 outside clusters.',
  'every catalogue with distinct magnitudes up to the stated number of events, and window lengths',
  'Chains of events through a moving window only arise in histories of several events with interleaved magnitudes and dates.',
  [DC], [('forward chain', '_find_aftershocks'), ('backward chain', '_find_foreshocks'), ('cluster construction', 'afteran_decluster')])
p('D04', 'The declustered catalogue is the input without its flagged events',
  'For both declustering methods the returned catalogue is exactly the rows of the input catalogue whose flag is 0, in input order and bit for bit unchanged, '
  'and the flag and cluster vectors have one element per input row, in input order. The input catalogue is not modified.',
  'every catalogue up to the stated number of events', 'The methods sort by magnitude and back again; a mix-up of orders is invisible on catalogues where it does not matter.',
  [DC], [('re-sorting to input order', 'gardner_knopoff_decluster, afteran_decluster'), ('purged catalogue', 'vmain_shock')])
p('D05', 'Declustering does not depend on the order of the catalogue rows',
  'Permuting the rows of a catalogue whose events have distinct magnitudes permutes the flags of both declustering methods in the same way, '
  'and leaves which events share a cluster unchanged.',
  'every catalogue with distinct magnitudes up to the stated number of events and every permutation (adjacent swaps and reversal generate them)',
  'Relates two runs of the program; no single expected output can state it.',
  [DC], [('sorting by magnitude', 'gardner_knopoff_decluster, afteran_decluster')])
p('D06', 'Declustering windows are positive and follow the published formulas',
  'For each window option the distance (km) and time (decimal years) windows of an event are the published functions of its magnitude alone (Gardner-Knopoff and Gruenthal with the '
  'change of regime at magnitude 6.5, inclusive above; Uhrhammer), positive, and elementwise: the windows of one event do not depend on the others.',
  'every magnitude in [0, 10] and position in the catalogue', 'The tests evaluate three magnitudes.',
  [DC], [('window formulas', 'GardnerKnopoffWindow.calc, GruenthalWindow.calc, UhrhammerWindow.calc'), ('option table', 'time_dist_windows')])

p('T01', 'Decimal year preserves the order of dates and stays within its year',
  'The decimal year of a date is the year plus the elapsed fraction of a 365-day year: it lies in [year, year + 1) (for 29 December-style overflow dates excluded), is strictly larger for a later date of a non-leap calendar, '
  'and consecutive days differ by exactly 1/365. It is elementwise: each date\'s value depends on that date only.',
  'every pair of valid calendar dates', 'The tests evaluate a few dates; month lengths and ends of month matter.',
  [CU], [('cumulative month lengths', 'decimal_year')])
p('T02', 'Distance is the great-circle distance',
  'The distance between sets of points is, for each pair, the haversine great-circle distance on a sphere of the given radius: symmetric in the two points, zero for equal points, never negative, at most half the circumference, '
  'and invariant under a 360 degree shift of longitude. Element (i, j) of the result depends only on point i of the first set and point j of the second.',
  'all coordinates from a stated finite set of longitudes and latitudes, and set sizes', 'A few pairs of points are tested.',
  [CU], [('haversine formula', 'haversine'), ('degree conversion', 'haversine')])
p('T03', 'Julian day numbers advance with the calendar',
  'The Julian date of 1 January 2000 12:00 is 2451545.0, each calendar day adds exactly 1, over month and year ends and leap years of the Gregorian calendar, and the time of day adds its fraction of 24 hours.',
  'every date from 1600 to 2399 and time of day', 'A few dates are tested, if any.',
  [CU], [('Gregorian to Julian formula', 'greg2julian')])

p('S01', 'Completeness tables are well formed and respect the increment lock',
  'The completeness table has one row per magnitude interval from the floor of the smallest to the ceiling of the largest magnitude (to one decimal; at least one interval), second column the lower edges spaced by the magnitude interval, '
  'first column years not after the last year of the catalogue minus one time step and within the analysed time range. With the increment lock on, the completeness year never increases with magnitude.',
  'every catalogue up to the stated size, time step, magnitude interval, tolerance and lock setting', 'Tests analyse fixed catalogues.',
  [CO], [('increment lock', 'stepp_analysis'), ('bins', 'stepp_analysis')])
p('S02', 'The completeness period is where the rate last departs from the Poisson model',
  'For each magnitude interval the completeness year is the last catalogue year minus the time range at the last position where the change of the log-gradient of the rate\'s deviation exceeds the tolerance; '
  'without such a position the previous interval\'s value is used (the first position for the first interval). '
  'Counts include every event of the magnitude interval (the last one open above) in the time range, magnitudes rounded to two decimals.',
  'every catalogue up to the stated size and parameters', 'Tests analyse fixed catalogues; the last-position rule, boundary years and open last interval need specific counts.',
  [CO], [('event counts', 'stepp_analysis'), ('tolerance test', 'stepp_analysis')])
p('S03', 'An event is dropped exactly when flagged or below the completeness table',
  'The selection mark of an event is 1 exactly when its declustering flag is non-zero or some row of the completeness table has both a later year and a larger magnitude than the event, and 0 otherwise; '
  'there is one mark per event, in order.',
  'every catalogue, completeness table and flag vector up to the stated sizes', 'Fixed example only.',
  [CO, JB], [('selection rule', 'selected_eq_flag_vector'), ('job wiring', 'create_selected_eq_vector')])
p('S04', 'The completeness table survives storing and retrieving',
  'A completeness table stored by preprocessing and retrieved later is the same two-column table, row for row, to five decimals, for any number of rows including one.',
  'every table up to the stated number of rows', 'One table is tested.',
  [JB], [('store', 'store_completeness_table'), ('retrieve', 'retrieve_completeness_table')])

p('R01', 'The recurrence table counts every event exactly once',
  'In the recurrence table each row counts the events whose magnitude lies in that row\'s interval, so that counts add up to the number of events; the cumulative column is the sum of the counts of that and all larger intervals; '
  'the annual columns are those divided by the number of years spanned (last minus first plus one), and the first column the interval centres.',
  'every set of events up to the stated size and magnitude interval', 'Fixed example only.',
  [RE], [('histogram', 'recurrence_table'), ('cumulative count', 'recurrence_table')])
p('R02', 'The b-value estimate is the Aki-Bender maximum likelihood one',
  'The b-value of a set of binned magnitudes is log10(e) / (mean - minimum + half the interval) over the intervals at or above the completeness magnitude only, and its error 2.3 b^2 times the standard error of the mean magnitude.',
  'every table of counts up to the stated number of intervals, completeness magnitude and interval', 'Fixed example only.',
  [RE], [('Aki-Bender estimator', 'b_max_likelihood')])
p('R03', 'MLE recurrence averages the completeness periods weighted by their events',
  'The MLE recurrence parameters are the averages, weighted by number of events, of those of each completeness period: each distinct completeness year is used once, with its smallest magnitude, '
  'on the events not before that year and not below that magnitude (within 1e-5). Rates are events per year of the span of those events, scaled to the reference magnitude by the b-value.',
  'every catalogue and completeness table up to the stated sizes', 'Fixed examples only.',
  [RE], [('period loop', 'b_maxlike_time')])
p('R04', 'Weichert input counts exactly the complete events and their observation periods',
  'With magnitudes rounded to one decimal, the table prepared for the Weichert estimator has one row per magnitude interval, from the smallest magnitude to the largest or one interval beyond, with the interval centre, the number of events in it that lie within the complete part of the catalogue by the completeness table '
  '(a time and magnitude interval both beginning before a row of the table are incomplete as a whole), '
  'and the observation period: last year minus completeness year of the largest tabulated magnitude not above the interval, plus one. Incompatible table columns are refused.',
  'every catalogue and completeness table up to the stated sizes and steps', 'Fixed examples only.',
  [RE], [('2d histogram', 'weichert_prep'), ('completeness cut', 'weichert_prep'), ('observation periods', 'weichert_prep')])
p('R05', 'The Weichert estimator returns the stationary point of its likelihood',
  'On return the Weichert b-value is, within the stability tolerance, a fixed point of the Newton iteration of Weichert\'s (1980) likelihood for the given counts and periods; '
  'the errors are the published ones, and the rate is the total count scaled by the likelihood\'s rate factor, shifted to the reference magnitude (not shifted for a reference of zero). '
  'Data whose likelihood has no maximum (no events outside the first, or outside the last, interval) are refused with an error rather than iterated forever.',
  'all small tables of counts and periods over stated magnitude intervals', 'Fixed examples only.',
  [RE], [('Newton iteration', 'weichert')])
p('R06', 'The configured recurrence algorithm is the one applied',
  'The recurrence analysis returns the parameters of the configured algorithm (Weichert, or maximum likelihood otherwise) on exactly the given years and magnitudes, with completeness years and magnitudes, '
  'magnitude interval, time interval and reference magnitude each in their own role.',
  'every configuration and catalogue up to the stated sizes', 'One configuration each is tested.',
  [RE], [('dispatch', 'recurrence_analysis')], over=('inputs', 'configurations'))

p('M01', 'Cumulative-moment magnitude is the largest departure from steady moment release',
  'The cumulative-moment maximum magnitude is that of the sum of the largest excess and the largest deficit of the cumulative moment over steady release at the mean annual rate, over every calendar year from first to last, years without events included. '
  'It does not depend on the order of the events.',
  'every catalogue up to the stated size and span', 'Fixed examples only.',
  [MM], [('annual moment', 'cumulative_moment')])
p('M02', 'Bootstrap result is the mean and sample deviation over perturbed catalogues',
  'The bootstrapped maximum magnitude and its uncertainty are the mean and the sample (n-1) standard deviation of the cumulative-moment estimate over exactly the requested number of samples, each perturbing every magnitude '
  'by its own uncertainty times its own independent standard normal variate; with zero uncertainties it equals the plain estimate, and a given seed (zero included) always gives the same result.',
  'every catalogue up to the stated size, sample number and drawn variates', 'A fixed seed is tested.',
  [MM], [('bootstrap loop', 'cum_mo_uncertainty')])
p('M03', 'Kijko maximum magnitude is not below the observed maximum',
  'The Kijko non-parametric estimate stops after at most the configured number of iterations (plus one), returns the observed maximum plus the last integral (never less than the observed maximum), and the uncertainty is the root of the squares of the observed maximum\'s own uncertainty and of that integral. '
  'Only the configured number of largest magnitudes enters the integral; a given observed maximum overrides that of the catalogue.',
  'every catalogue over stated magnitude sets, iteration limits and tolerances', 'Fixed examples only.',
  [MM], [('iteration', 'kijko_nonparametric_gauss'), ('selection of largest events', 'kijko_nonparametric_gauss')])
p('M04', 'The normal distribution approximation follows its published polynomial',
  'For the central range the approximation of the cumulative normal distribution agrees with the distribution to 3e-4, lies in [0, 1], is 1 above five deviations and 0 below minus five, and is elementwise and consistent under change of mean and deviation.',
  'every argument', 'A few arguments are tested.',
  [MM], [('Hastings polynomial', 'gauss_cdf_hastings')])
p('M05', 'Kernel bandwidth, sample points and integral follow their definitions',
  'The kernel bandwidth is 0.9 times the smaller of the standard deviation and the inter-quartile range over 1.34, times n^(-1/5), rounded to two decimals. '
  'The sample points start at the lower and end at the upper bound, are increasing and evenly spaced in exponential. The integral is the trapezoidal one over these points of the normalised kernel distribution raised to the number of events.',
  'all samples over stated sets of magnitudes and sizes', 'Fixed examples only.',
  [MM], [('Silverman rule', 'h_smooth'), ('points', 'exp_spaced_points'), ('integral', 'kijko_npg_intfunc_simps')])

p('W01', 'Pipelines run exactly the configured jobs, in order',
  'The preprocessing pipeline is the reading of the catalogue, of the configured or default source model, the numeric catalogue and the defaults, then the configured preprocessing jobs in the configured order, '
  'then, if a result file is configured, selection, catalogue storage and completeness table storage; with no preprocessing jobs, the retrieval of a configured completeness table. '
  'The processing pipeline is the configured processing jobs in order; an unknown job name is refused; running a pipeline runs each job once in order, and pipelines are equal exactly when they hold the same jobs in the same order.',
  'every configuration: any list of job names up to the stated length, with and without each file', 'Tests build a few configurations.',
  [WF], [('builders', 'PreprocessingBuilder.build, ProcessingBuilder.build'), ('run', 'PipeLine.run')], over=('configurations',))
p('W02', 'Each source is processed once with its own events, and only it',
  'With processing enabled each source of the model is processed exactly once, in order, after preprocessing is complete, with exactly the events of the working catalogue selected for it; sources without events are skipped with their values unchanged. '
  'With processing disabled no processing job runs.',
  'every number of sources and assignment of events to sources up to the stated bounds', 'Tests mock a single source.',
  [WF, CF], [('main loop', 'Workflow.start'), ('catalogue filter', 'CatalogFilter.filter_eqs')], over=('inputs', 'configurations'))
p('W03', 'A source keeps exactly the events inside its polygon, in order',
  'The events selected for a source are exactly the rows of the catalogue whose longitude and latitude lie strictly inside the source\'s boundary polygon, in catalogue order and unchanged; an invalid polygon is refused. '
  'Without source filtering every event is selected for every source.',
  'every catalogue up to the stated size and events anywhere on the plane, for several polygons', 'One polygon and catalogue are tested.',
  [CF], [('point in polygon', 'SourceModelCatalogFilter.filter_eqs'), ('polygon', '_extract_polygon'), ('null filter', 'NullCatalogFilter.filter_eqs')])
p('W04', 'Job results go to the right fields of the current source only',
  'The recurrence job sets the current source\'s a-value, b-value, and minimum magnitude (to the configured reference magnitude) and records the two uncertainties on it; the maximum magnitude job sets its maximum magnitude and records its uncertainty. '
  'Every other field of the source, and every other source, keeps its value.',
  'every result of the computations, every prior content of the sources, either order of the jobs', 'One source with one result is tested.',
  [JB], [('recurrence job', 'jobs.recurrence'), ('maximum magnitude job', 'jobs.maximum_magnitude')])
p('W05', 'Jobs pass each configured parameter and catalogue column in its own role',
  'Each job calls its computation exactly once with the documented columns of the right catalogue (declustering: full catalogue; completeness: declustered catalogue\'s year and Mw; selection: full catalogue, completeness table and flags; recurrence and maximum magnitude: the current source\'s events) '
  'and the configured parameters each in its own place. It stores the results where the next jobs read them: declustered catalogue, flags, cluster numbers, completeness table, selection marks.',
  'every configuration value, catalogue and result of the computations', 'Tests check selected jobs with one configuration, in which several values coincide.',
  [JB], [('job wrappers', 'jobs.gardner_knopoff, afteran, stepp, create_selected_eq_vector, recurrence, maximum_magnitude')], over=('inputs', 'configurations'))

p('W06', 'A run of the program updates and writes every source from its own events',
  'Running the program with a configuration file writes every source of the configured model in order: with processing enabled, a source whose polygon contains events carries the estimates of the configured jobs computed from exactly those events '
  'of the preprocessed catalogue and the completeness table in force (computed, retrieved or default), and everything else is as in the model (without a source model the default source gets the estimates from the whole catalogue). '
  'The catalogue and completeness table it stores are those of the preprocessing jobs, and a second run works on them; a workflow started again on the same context works on the files as they are then; '
  'input files are left alone, the options of the command line do not change the result, and a run that fails reports it and leaves no result file.',
  'stated catalogues with open places, magnitudes, years and dates; overlapping zones; job lists; with and without source model, processing, completeness table; two runs in sequence, of the program or of one workflow on one context',
  'The tests exercise jobs and filters one by one; the program that puts them together, and files passed from one run to the next, are not tested at all.',
  ['main.py', WF, JB, CF, 'mtoolkit/console.py', NR, NW, EQ],
  [('program', 'main.py'), ('workflow', 'Workflow.start'), ('pipelines', 'PreprocessingBuilder.build, ProcessingBuilder.build'), ('command line', 'console.cmd_line')],
  over=('inputs', 'configurations'), observe=['result_file', 'pprocessing_result_file', 'completeness_table_file'])

p('P01', 'Results depend only on the arguments, and arguments are left unchanged',
  'Every computation, filter, reader and writer gives for the same arguments the same result, whatever was computed, read or written before in the same process (by other arguments of the same or another size, by calls that failed, or by the same object), a result once returned is not changed by later calls, '
  'and no call changes the arrays, lists, dictionaries, entries or sources it is given.',
  'two argument lists differing in open places, called one after the other, compared with a newly loaded module',
  'Tests call each function with one argument list in a process of its own order; state kept between calls and changes to shared arrays show only in later calls.',
  [DC, CO, RE, MM, CU, FC, SF, TR, CF, EQ, NR, NW],
  [('computations', 'declustering, completeness, recurrence, maximum_magnitude, catalogue_utilities, fault_calculator'), ('filter', 'CatalogFilter.filter_eqs'),
   ('readers and writers', 'EqEntryReader.read, EqEntryWriter.write_rows, NRMLReader.read, AreaSourceWriter.serialize')], over=('inputs', 'histories'))

p('N01', 'Source models survive writing and reading',
  'Area sources with schema-valid values that share the ids of their document and model, with or without the optional name, types and reference system, are written to a file that is valid for the nrml schema, and read back equal to the originals in every field, in number and in order. Writing leaves the sources unchanged and replaces whatever the file held.',
  'every list of area sources up to the stated size, all numeric fields arbitrary, any number of vertices and depth entries up to the bound', 'One model is compared with one file.',
  [NR, NW, NX], [('writer', 'AreaSourceWriter.serialize'), ('reader', 'NRMLReader.read')])
p('N02', 'Each nrml element is read into, and written from, its own field',
  'The reader gives each field of an area source the content of the element documented for it, and the writer puts each field into that element, vertices as longitude latitude pairs in order, with attributes (ids, types, reference system) preserved. '
  'Sources of other kinds are passed over. A document that is not valid for the schema is refused. (One rupture rate model per source.)',
  'all numeric contents of the elements, up to the stated numbers of sources and vertices', 'Reader and writer tests use values that coincide for several elements; a swap made in both would survive a round trip.',
  [NR, NW, NX], [('element parsers', 'reader._parse_*'), ('element writers', 'writer._write_*'), ('names', 'nrml_xml')])
p('N03', 'Sources are equal exactly when all their fields are equal',
  'Two area sources compare equal if and only if all nine of their documented fields are equal, and unequal is the negation of equal. Default sources are equal to each other and independent of each other.',
  'every pair of sources differing in any subset of fields, at any depth', 'Tests compare a few pairs.',
  [SM], [('equality', 'AreaSource.__eq__, __ne__'), ('default source', 'default_area_source')])
p('O01', 'Writers accept a path exactly when its directory exists',
  'The catalogue writer and the source model writer accept an output path exactly when its directory exists (a bare file name means the current directory), raise an IOError otherwise, and creating them leaves the file system unchanged.',
  'every path shape (bare, relative, absolute, nested) and every state of the file system', 'Tests use one bad path.',
  [EQ, NW], [('directory check', 'EqEntryWriter.__init__, AreaSourceWriter.__init__')])

p('G01', 'A simple fault is accepted exactly when its geometry is valid',
  'A simple fault geometry is accepted exactly when it has at least two points, all within longitude [-180, 180] and latitude [-90, 90], upper depth not negative, lower depth greater than upper depth, and dip in (0, 90]; anything else is a ValueError.',
  'every trace up to the stated number of points, depths and dip', 'Tests try a few invalid values.',
  [SF], [('checks', 'SimpleFaultGeo.__init__')])
p('G02', 'Fault length, width and area follow from the geometry',
  'The length of a fault is the sum over consecutive points of great-circle distances (radius 6371 km), independent of the direction of the trace; the width is the depth range over the sine of the dip; the area is their product.',
  'traces over stated sets of coordinates, dips and every depth', 'A few geometries are tested.',
  [SF], [('length', 'get_length'), ('width', 'get_width'), ('area', 'get_area')])
p('G03', 'A tectonic region is accepted exactly when values and weights are valid',
  'A tectonic region is accepted exactly when each of its three lists has as many weights as entries, every scaling relation is supported, all shear moduli and displacement-length ratios are greater than zero, and each list of weights adds up to one (within rounding); anything else is a ValueError. '
  'The default regions are accepted with their documented default values, overridden individually by the given ones, and unknown names are refused.',
  'all lists up to the stated length with arbitrary values and weights', 'A few examples are tested.',
  [TR], [('checks', 'TectonicRegion.check_*'), ('defaults', 'TectonicRegionBuilder')])
p('G04', 'Fault activity rates follow the moment-rate balance',
  'The incremental rates of a fault are the differences of the cumulative Anderson-Luco rate at successive interval edges starting half an interval below the minimum magnitude, one per interval centred below the maximum magnitude (the number of intervals is that of the magnitude range divided by the bin width, rounded up), computed with the seismic share of the slip; '
  'rates are proportional to the slip, and non-positive slip or an aseismic share outside [0, 1) is refused. A maximum magnitude not given is taken from the scaling relation for the fault\'s area and rake.',
  'all slips, aseismic coefficients and widths, over stated sets of magnitudes and b-values', 'The existing tests cannot even run here (nhlib is missing).',
  [FC], [('rates', 'get_mfd'), ('cumulative rate', '_cumulative_value')])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P))
