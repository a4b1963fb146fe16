#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept readable here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)

p('C01', 'Writing a schedule and loading it back preserves every entity and value',
  'Writing a schedule to a feed file and loading that file yields a schedule with exactly the same agencies, stops, routes, trips, stop times, frequencies, service calendars and date exceptions, fares, fare rules, shapes, transfers and feed info, value for value: zero values, unicode text, commas, quotes and extra columns (of agencies, stops, routes, trips, transfers and feed info) included, numbers to twelve significant digits, nothing added and nothing lost. Writing what was loaded once more gives the same feed contents again.',
  ['inputs', 'histories'],
  'for every schedule that loads without errors (built through the API or loaded from a feed), every column of every table, every value of that column, and any combination of optional tables',
  'The tests write and reload one or two hand-made feeds and look at a few cells; a column dropped, or a legal zero written as blank, is visible only when every column is driven through its edge values.',
  ['transitfeed/schedule.py', 'transitfeed/stoptime.py', 'transitfeed/trip.py', 'transitfeed/gtfsobjectbase.py', 'transitfeed/shape.py', 'transitfeed/serviceperiod.py', 'transitfeed/fareattribute.py', 'transitfeed/farerule.py', 'transitfeed/loader.py', 'transitfeed/util.py'],
  [('WriteGoogleTransitFeed, table column tracking', 'transitfeed/schedule.py'), ('GetFieldValuesTuple', 'transitfeed/stoptime.py'), ('CSV readers', 'transitfeed/loader.py')],
  ['contents of the written zip', 'the reloaded schedule'])

p('C02', 'A trip\'s stop times always equal what was added, replaced and cleared',
  'After any sequence of appending, inserting, replacing and clearing stop times, a trip lists exactly the stop times it was given, in sequence order and with every value intact; its stop time count, its start and end time, its pattern of stops and each stop\'s list of visiting trips (with the position in each trip) always agree with that list. Two trips have the same pattern identifier exactly when they currently visit the same stops in the same order.',
  ['histories'],
  'for every sequence of add / add-unordered / replace / clear operations over several trips and stops, with timed and untimed stops and any sequence numbers, with the memory and the file database',
  'Tests run one fixed sequence of calls each; wrong cross-trip deletion, stale cached values and ordering mistakes need particular interleavings of operations on two trips.',
  ['transitfeed/trip.py', 'transitfeed/stop.py', 'transitfeed/stoptime.py', 'transitfeed/schedule.py'],
  [('stop_times table and its queries', 'transitfeed/trip.py'), ('GetTrips / GetStopTimeTrips', 'transitfeed/stop.py')],
  ['Trip and Stop accessors'],
  [('stop_times', 'sqlite table with all stop times of a schedule', 'transitfeed/schedule.py:ConnectDb')])

p('C03', 'A service period is active on exactly the dates its calendar says',
  'A service period is active on a date exactly when the date has an "added" exception, or when it has no "removed" exception, lies between start and end date inclusive and falls on a selected weekday. The list of active dates, the reported date range (start to end, widened by added exceptions) and the exception queries agree with that rule after any sequence of edits to weekdays, dates and exceptions.',
  ['histories', 'inputs'],
  'for every combination of weekday set, start/end date (including unset, equal and reversed) and exceptions, every edit sequence up to the bound, and every date in and around the range, across month, year and leap-day boundaries',
  'Tests check a handful of dates of one or two calendars; boundary days, exceptions outside the range and re-edited exceptions are not sampled.',
  ['transitfeed/serviceperiod.py'],
  [('IsActiveOn, ActiveDates, GetDateRange, SetDateHasService', 'transitfeed/serviceperiod.py')])

p('C04', 'Per-day service and trip counts and the feed date range are exact',
  'For every date in a requested range a schedule lists exactly the service periods active that day, and its trip and departure counts are the sums over the trips of those periods of the number of runs (one, or one per frequency start) and of runs times (number of stops minus one; none for a trip without stops). The feed\'s date range is the earliest start and latest end over its service periods (none when no service period has dates), overridden by the dates in feed info, and the stated origin of each end is the calendar, the exceptions or the feed info entry that supplied it.',
  ['inputs', 'configurations'],
  'for every small schedule of service periods, trips with and without frequencies and stop times, and feed info dates, and every sub-range of dates',
  'Tests use one schedule with fixed dates; the origin of the range and sums across several periods depend on the combination.',
  ['transitfeed/schedule.py', 'feedvalidator.py'],
  [('GetServicePeriodsActiveEachDate, GenerateDateTripsDeparturesList, GetDateRangeWithOrigins', 'transitfeed/schedule.py')])

p('C05', 'Expiry, future-start and service-gap warnings are raised exactly when due',
  'Relative to the validation date, a feed gets an expiry warning exactly when its last service date is less than 60 days ahead, a future-service warning exactly when its first service date is later than that date, a no-exceptions warning exactly when it spans at least 182 days without any exception, and a warning when it has no effective dates at all. With a gap length N configured, every maximal run of at least N consecutive days without trips, from N-1 days before the validation date (or the first service date, if later) up to the day before the last service date or one year ahead, is reported once with its correct first day, last day and length, and nothing else is reported as a gap.',
  ['inputs', 'configurations'],
  'for every validation date around the boundaries, every gap length, every small service pattern',
  'Tests hit each warning at one or two dates; off-by-one days at the edges of the window need every alignment of today, gap and range.',
  ['transitfeed/schedule.py', 'transitfeed/problems.py'],
  [('ValidateServiceRangeAndExceptions, ValidateServiceGaps, ValidateFeedStartAndExpirationDates', 'transitfeed/schedule.py')])

p('C06', 'Textual times, dates, numbers and codes are parsed exactly or reported',
  'A time is accepted exactly when it has the form H:MM:SS, HH:MM:SS or HHH:MM:SS with minutes and seconds below 60, and then means that many seconds; formatting any whole number of seconds and parsing it back returns the same number. A date is accepted exactly when it is eight digits naming a real calendar day, a colour when it is six hexadecimal digits, a number when it is a well-formed decimal in range, and URLs, e-mail addresses, yes/no flags, language and currency codes by their stated rule. Anything else raises an error or a reported problem and is never silently turned into a value.',
  ['inputs'],
  'for every string over a small alphabet up to a length, every second of 0-999 hours, every calendar day of the supported years',
  'Tests list about a dozen strings per format; the sets accepted are regular languages and arithmetic over the whole range, which can be enumerated but not sampled.',
  ['transitfeed/util.py', 'transitfeed/stoptime.py', 'transitfeed/shapepoint.py', 'transitfeed/serviceperiod.py'],
  [('TimeToSecondsSinceMidnight, FormatSecondsSinceMidnight, DateStringToDateObject, FloatStringToFloat, NonNegIntStringToInt, Validate*', 'transitfeed/util.py')])

p('C07', 'Frequency-based trips run exactly at start + k * headway',
  'A trip\'s frequency start times are, in increasing order, every start + k * headway that lies before the end of its period, for every period added in any order, and there are none after the periods are cleared. The stop times of each run are the trip\'s own stop times, in order and with all other values kept, shifted by one constant so that the first stop\'s time is the run\'s start. A period with a missing or malformed start, end or headway, or a headway that is not a positive whole number, is reported and not added; an end not after the start and a bad exact-times flag are reported; overlapping periods, and only those, are reported as overlapping.',
  ['inputs', 'histories'],
  'for every set and order of up to three periods over a small time grid and every stop pattern with timed, untimed and midnight-crossing stops',
  'Tests use two fixed periods in order; ordering, adjacency and last-run boundaries need the grid.',
  ['transitfeed/trip.py', 'transitfeed/frequency.py'],
  [('AddFrequency, GetFrequencyStartTimes, GetFrequencyStopTimes, ValidateFrequencies', 'transitfeed/trip.py')])

p('C08', 'Interpolated stop times are exact, ordered and distance-proportional',
  'For a trip whose first and last stops are timed, interpolation returns one entry per stop time in order: a timed stop keeps its own time and is flagged as a timepoint, and an untimed stop gets the time that divides the interval between the surrounding timed stops in proportion to the distance travelled from stop to stop, rounded to a second, so that times never run backwards on a trip whose given times do not. Interpolation also completes when stops share a location, and it raises a value error, never a wrong answer, when the first or last stop is untimed.',
  ['inputs'],
  'for every trip of up to five stops over a small set of positions (coinciding ones included), every timed/untimed pattern and every arrival/departure assignment from a grid including midnight',
  'Tests interpolate one trip; the cursor logic over consecutive untimed runs and degenerate distances needs all patterns.',
  ['transitfeed/trip.py', 'transitfeed/util.py'],
  [('GetTimeInterpolatedStops', 'transitfeed/trip.py')])

p('C09', 'A shape is the sequence-sorted polyline of its points in any insertion order',
  'However its points are added, a shape lists them in increasing sequence order with each position and travelled distance kept together, and its maximum distance is the largest given; a repeated sequence number, and a travelled distance that is smaller than an earlier point\'s or larger than a later point\'s, are reported, and a valid shape is accepted silently. The location at a travelled distance is the end point when the distance is outside the range and otherwise the linear interpolation on the segment that contains it. Clearing a shape\'s points makes it behave like a new empty shape.',
  ['histories', 'inputs'],
  'for every insertion order of every small point set (duplicates, equal and missing distances included) interleaved with clears, and every query distance on a grid',
  'Tests add three points in order; the sorted insertion and neighbour checks depend on the order.',
  ['transitfeed/shape.py', 'transitfeed/shapepoint.py', 'transitfeed/loader.py'],
  [('AddShapePointObjectUnsorted, GetPointWithDistanceTraveled, ClearPoints', 'transitfeed/shape.py')])

p('C10', 'Stop-time inconsistencies within a trip are reported exactly when present',
  'Validating a trip reports a repeated sequence number, an arrival before the previous departure, a departure before its own arrival, a half-given time, a missing first or last time of a trip with at least two stops, a travelled distance that does not increase (a warning when equal, an error when smaller), a final travelled distance beyond the end of the shape, a stop more than 1000 m from its place on the shape, a speed above the route type\'s maximum between successive timed stops (with equal times: above it for one minute, or when the times are not whole minutes), and more than five consecutive stops at one time: each exactly when it occurs. A consistent trip is reported nothing.',
  ['inputs'],
  'for every trip of up to five (seven for same-time runs) stop times over a grid of times, sequence numbers, distances and positions, and every route type',
  'Each rule has one or two tests; its exactness over sequences (skipped untimed stops, carried-over previous values, boundaries) is a property of all sequences.',
  ['transitfeed/trip.py', 'transitfeed/schedule.py', 'transitfeed/stoptime.py', 'transitfeed/route.py'],
  [('ValidateChildren, _CheckSpeed', 'transitfeed/trip.py'), ('ValidateStopTimesForTrip', 'transitfeed/schedule.py')])

p('C11', 'Overlapping trips in a block and duplicate trips are found, and only those',
  'Two trips of one block are reported as overlapping exactly when their times (first arrival to last departure) overlap in more than an instant and their services are the same or share at least one active date, each pair once, whatever the order of the trips and whatever other trips, blocks or unknown services the feed contains. With duplicate checking on, a trip is reported exactly when an earlier trip has the same service, start time and stop sequence.',
  ['inputs', 'configurations'],
  'for every assignment of up to four trips to blocks, intervals on a small grid and services with same, overlapping, disjoint or undefined calendars',
  'Tests use a few fixed pairs; the sweep with early exit and the cache of calendar comparisons are only exercised by several trips at once.',
  ['transitfeed/schedule.py'],
  [('ValidateBlocks, ValidateTrips', 'transitfeed/schedule.py')])

p('C12', 'Any feed, however damaged, can be loaded, validated and reported on',
  'Loading and validating any feed and writing the report, in HTML or on the console, ends normally: malformed, missing, empty, duplicated or wrongly encoded files, headers, columns, rows and values lead to reported problems and never to an unhandled exception or an endless run. The report\'s verdict and exit status agree with the problems found, and a sound feed is reported as such.',
  ['inputs', 'fault_sequences'],
  'for every feed that differs from a sound base feed (all tables present) by up to the bounded number of faults: a file removed, emptied, re-encoded or truncated; a column removed, blanked, repeated or renamed; a cell replaced by any value of a hostile alphabet; rows repeated or reordered',
  'Tests hold a few dozen hand-made bad feeds; crashes sit at combinations of one column and one odd value that nobody wrote down.',
  ['transitfeed/loader.py', 'transitfeed/schedule.py', 'transitfeed/problems.py', 'feedvalidator.py', 'transitfeed/stop.py', 'transitfeed/route.py', 'transitfeed/transfer.py', 'transitfeed/fareattribute.py'],
  [('loader and validators', 'transitfeed/'), ('HTMLCountingProblemAccumulator, CountingConsoleProblemAccumulator', 'feedvalidator.py')])

p('C13', 'Every broken reference and duplicate key is reported; bad rows are left out',
  'A reference to an entity that the feed does not define (agency, route, service, shape, stop, parent station, trip, fare, fare zone or transfer stop) is reported as a problem naming the referring column and the bad value, for every reference column, and a key defined twice is reported; of two agencies, stops, routes, trips, services, or fares with one identifier the first is kept. A feed all of whose references resolve and whose keys are unique gets no such report, whatever the order of its rows and files.',
  ['inputs'],
  'for every reference column and key column, every choice of target among defined, undefined, blank and differently-cased ids, with one and several definitions, in up to two places at once',
  'Each reference has at most one test; whether all are checked in the presence of each other is a question about all columns and pairs.',
  ['transitfeed/schedule.py', 'transitfeed/loader.py', 'transitfeed/trip.py', 'transitfeed/transfer.py', 'transitfeed/farerule.py', 'transitfeed/frequency.py'],
  [('Add*Object and Validate* reference checks', 'transitfeed/schedule.py')])

p('C14', 'A problem found in a row is reported at that file, row and column',
  'A problem found while a row of a feed file is read is reported with that file\'s name, that row\'s number (the header being row 1, blank lines counting), that row\'s values and headers and, where the problem names a column, the column in which the bad value stands, wherever the row is in the file and whatever rows precede or follow it; the reports show this place. A problem that no row causes never carries the location of some other row that happened to be read earlier.',
  ['inputs', 'fault_sequences'],
  'for every table, every fault kind in a row, every row position, blank lines and preceding faulty or skipped rows',
  'Tests check the location for single faults at one position; a stale location needs a skipped row followed by a different problem.',
  ['transitfeed/loader.py', 'transitfeed/problems.py'],
  [('SetFileContext / ClearContext', 'transitfeed/problems.py'), ('row loops', 'transitfeed/loader.py')],
  None, [('current context', 'file, row and headers being processed', 'transitfeed/problems.py')])

p('C15', 'The meaning of a feed does not depend on its textual representation',
  'Permuting columns or the rows of a file, quoting, LF or CRLF line ends, a missing final newline, a UTF-8 byte order mark, blank lines, extra spaces around values, and packaging as a directory or zip file leave the loaded schedule and the set of problems (apart from line numbers) unchanged. So do the choice of memory or file database and any feeds loaded or reported before in the same process.',
  ['inputs', 'configurations', 'histories'],
  'for every table of a base feed and every such transformation, singly and in pairs, on sound feeds and on feeds with a fault',
  'Tests load one representation each; equality between representations is a relation over all of them.',
  ['transitfeed/loader.py', 'transitfeed/util.py', 'transitfeed/schedule.py'],
  [('_ReadCsvDict, _ReadCSV, EndOfLineChecker', 'transitfeed/loader.py')])

p('C16', 'Problem counts, limits, ordering and exit status are exact',
  'Whatever sequence of errors, warnings and notices is reported, the accumulated counts per severity and per problem class equal the numbers reported, ignored problem classes excluded; at most the configured number is kept for each class, and those kept are the most significant ones where significance is defined and otherwise the first ones. An accumulator that raises does so on exactly the errors, and the validator\'s exit status is 1 exactly when there is at least one error or warning.',
  ['histories', 'configurations'],
  'for every sequence of problem reports up to the bound over classes, severities and distances, every limit and ignore list',
  'Tests report a few problems by hand; the kept set is a property of the order of arrival.',
  ['transitfeed/problems.py', 'feedvalidator.py'],
  [('BoundedProblemList, LimitPerTypeProblemAccumulator', 'feedvalidator.py'), ('ExceptionProblemAccumulator', 'transitfeed/problems.py')])

p('C17', 'A merged feed contains all of both feeds with references intact',
  'Every agency, stop, route, service period, trip with its stop times and frequencies, shape, fare with its rules, and transfer of either input feed is represented in the merged feed, with every value that is not an identifier unchanged; entities are only combined when they come from different feeds, have the same identifier and agree in the values that their merger compares, the values of the new feed then being kept; fare rules and transfers that become the same are one. Every reference in the merged feed leads to the entity that represents the original target, and identifiers in the merged feed are unique.',
  ['inputs', 'configurations'],
  'for every pair of small feeds that differ in any subset of identifiers, names, positions and attributes, under every merger configuration',
  'Tests merge a few fixed feeds per merger class and check one table at a time; a wrongly remapped reference needs colliding identifiers in two tables at once.',
  ['merge.py'],
  [('DataSetMerger._Migrate/_Add/_Map, FeedMerger', 'merge.py')],
  ['merged schedule, a_merge_map / b_merge_map'])

p('C18', 'A dated merge switches from the old to the new service at the cutoff',
  'When two feeds are merged with a cutoff date, the old feed\'s services run on exactly their original dates before the cutoff and on none after, and the new feed\'s services on exactly their original dates from the cutoff on and on none before, exceptions included; the service range reported stays consistent with that. Merging without a cutoff leaves the active dates of every service unchanged, and is refused exactly when the date range of a service of one feed has a date in common with the date range of a service of the other.',
  ['inputs'],
  'for every cutoff date relative to every pair of small calendars (ranges before, after and across the cutoff, exceptions on either side, exception-only services)',
  'Tests use one calendar per feed and a cutoff in its middle.',
  ['merge.py', 'transitfeed/serviceperiod.py'],
  [('ServicePeriodMerger.DisjoinCalendars, CheckDisjointCalendars', 'merge.py')])

p('C19', 'Stop and transfer geography is validated exactly at the stated thresholds',
  'Two stops, two stations, or a stop and a station that is not its parent, that are less than two metres apart are reported once each pair; a stop more than 100 m (warning) or 1000 m (error) from its parent station, a transfer over more than 10 km (error) or 2 km (warning) and a transfer that needs walking faster than 2 m/s even with two minutes more than its minimum time are reported; stops that are never visited and stations that are visited are reported. Each report appears exactly when its condition holds, at every place on earth, including the equator and the zero meridian.',
  ['inputs', 'configurations'],
  'for every small set of stops and stations on a grid of positions on both sides of each threshold, at several places on earth, in any order',
  'Tests place a couple of stops at one place; the sorted neighbour scan and the zero coordinates need the grid.',
  ['transitfeed/schedule.py', 'transitfeed/transfer.py', 'transitfeed/stop.py', 'transitfeed/util.py'],
  [('ValidateNearbyStops, ValidateStops', 'transitfeed/schedule.py'), ('ValidateTransferDistance, ValidateTransferWalkingTime', 'transitfeed/transfer.py')])

p('C20', 'Shape library results are geometrically correct and optimal',
  'The path PolyGraph.ShortestPath returns between two different nodes of a polyline graph is a path of edges of the graph, walked in either direction, from the first to the second and as short as any, and none is returned exactly when none exists. FindShortestMultiPointPath returns, when no more candidates than keep_best_n arise, a shortest polyline that visits a node within max_radius of every given point in order by such paths, and FindMatchingPolys exactly the polylines whose first and last points lie within max_radius of the given start and end. The closest point on a polyline is at minimal distance over the whole polyline and the index returned with it names the segment it lies on; cutting at a point yields the vertices up to that segment and the closest point with the rest. Merging polylines keeps all their points in order, leaving out only the first point of a polyline that starts within the threshold of the end of what was merged before, and joins their names with semicolons. The greedy match distance is the largest distance between a point and its match. Points converted from and to latitude and longitude are unchanged.',
  ['inputs'],
  'for every graph over up to five nodes and every small polyline on a grid, against brute force',
  'Tests use one triangle and a few lines; optimality is a statement about all graphs.',
  ['transitfeed/shapelib.py'],
  [('PolyGraph.ShortestPath, FindMatchingPolys; Poly.GetClosestPoint, CutAtClosestPoint, MergePolys', 'transitfeed/shapelib.py')])

p('C21', 'KML export shows every stop, route pattern and shape; KML import restores stops',
  'The KML written for a feed is a complete, well-formed file when Write returns and contains: one point placemark for every stop, named after it, at its own position (to six decimals); for every route a folder, coloured as the route, with one placemark for each distinct stop pattern (its stops in order, the number and ids of its trips) and for each shape its trips use; one placemark for every shape with its points in order. On request it also contains the shape points, the hierarchy of stops with lines to their parents, a split by route type, and every trip (only those active on a given date), with an altitude that grows with time. Reading KML creates one stop for every placemark with a point and one shape for every line (unless identical to the first one of that name), named or not, with unique ids and at their positions.',
  ['inputs', 'configurations'],
  'for every small feed over names with markup and unicode characters, parent/child stops, routes with and without shapes, all option combinations and every date filter',
  'Tests check single placemarks of one feed.',
  ['kmlwriter.py', 'kmlparser.py'],
  [('KMLWriter', 'kmlwriter.py'), ('KmlParser', 'kmlparser.py')])

p('C22', 'The schedule viewer answers from the schedule and serves nothing else',
  "Every answer of the schedule viewer's web server equals what the schedule says, for every request: the routes in order of their names, a route's row, the patterns of a route with up to three trips that are active on a date and start at or after a time (or else the last three) and the counts of those before and after, the row, stop times and shape of a trip, the stops nearest on the ground to a point or within a box up to a limit, the stops whose id or name contains a text regardless of case, the next (at most five) visits of a stop at or after a time on a date, and the schematic time-distance diagram of a pattern. Requests that name nothing existing or lack parameters get an error or an empty answer, never data of something else. A request for a file never returns anything outside the viewer's own file directory, and no request stops the server. Edits made with the location editor are in the saved schedule.",
  ['inputs', 'histories'],
  'for every request over an alphabet of paths and parameters (existing, missing, malformed and hostile) on small schedules',
  'There are no tests for the request handlers beyond start-up.',
  ['schedule_viewer.py', 'gtfsscheduleviewer/marey_graph.py', 'transitfeed/schedule.py'],
  [('ScheduleRequestHandler handlers', 'schedule_viewer.py')])

p('C23', 'Upgrading translations keeps every translation of every record',
  "Converting an old-style translations file yields, for every record and translatable field that holds a translation key, the original text in the feed's language in place of the key, and exactly the old translations of that key in the other languages under the proper table, field, record (and sub-record) and language; in trips and stop_times a translation may instead be given once for the original text, and then holds for every record with that text. Every other field, row and file of the feed, and the source directory, stay unchanged, nothing else is translated, and no translation is lost, contradictory or attached to another record. Feeds whose language is not stated, or that have no originals in it, are refused.",
  ['inputs'],
  'for every small feed with shared and distinct translation keys across tables, fields and records, every language choice and unicode text',
  'Tests convert one or two fixed feeds.',
  ['upgrade_translations.py'],
  [('OldTranslations, TranslationsConverter', 'upgrade_translations.py')])

p('C24', 'Pathway diagrams show exactly the feed\'s stations, locations and pathways',
  "The diagram generated for a feed is well-formed Graphviz text, whatever characters identifiers, names, codes and signs contain. Each location that is to be shown occurs exactly once: a location without parent as a group of its own, a platform that has children as a group inside its station's, every other location as a node inside its parent's group, with the colour and shape of its kind and a label of its id and platform code, else sign text, else name (long names shortened). Each pathway between two shown locations occurs exactly once, from its first to its second location, in both directions only if it is bidirectional, labelled with its mode and signs. Shown are all locations of the stations that have any pathway or, if stops are selected, of the stations they belong to; others do not appear, and selecting a stop that does not exist is refused.",
  ['inputs', 'configurations'],
  'for every small forest of stations, platforms, entrances, nodes and boarding areas, every pathway set between them, options, and identifiers with special characters',
  'There is one test with one feed.',
  ['visualize_pathways.py'],
  [('gtfs_to_graph, graph printing', 'visualize_pathways.py')])

p('C25', 'Language tags and Google extension fields are judged by their grammar',
  "A language tag is called well formed exactly when it matches the BCP 47 grammar (or is a grandfathered tag of the registry), in any case, and valid exactly when, in addition, it is grandfathered or redundant or all its primary language, extended language (at most one), script, region and variant subtags are registered, no variant and no extension singleton is repeated; its description names the registered parts in order and the first subtag that is not accepted. The Google extension reads, judges and writes everything else as the core does; a malformed agency_lang is an error, one that is not valid a warning; a fare's agency_id must be that of an agency, and may be blank or absent only if there is a single agency; co2_per_km must be a number; route types and vehicle types are the core's and those of the hierarchical list with their own maximum speeds (others get a warning, non-numbers an error); an entrance (location_type 2) needs a parent_station, may lack a stop_name and must not have a vehicle_type, which is only a warning for other stops with a parent. Each such fault is reported once, and the additional fields survive writing and reading.",
  ['inputs'],
  'for every tag of up to five subtags over an alphabet with every subtag class, registered and not, and every field value of the extension over its alphabet',
  'Tests list some twenty tags.',
  ['extensions/googletransit/pybcp47/bcp47languageparser.py', 'extensions/googletransit/extension_util.py', 'extensions/googletransit/stop.py', 'extensions/googletransit/route.py', 'extensions/googletransit/fareattribute.py', 'extensions/googletransit/agency.py'],
  [('Bcp47LanguageParser.ParseLanguage', 'extensions/googletransit/pybcp47/bcp47languageparser.py')])

p('C26', 'A factory always resolves names, files and loading order as registered',
  'After any sequence of registering, overriding and removing classes and file mappings, a factory resolves every class name and file name to exactly what was registered last, reports the files that are required, known and to be loaded as registered, and lists files for loading in ascending order of their stated position with none missing, files that share a position included. Rejected changes (unknown names to update, names to add that exist, incomplete mappings) are reported and leave it unchanged, mappings are copied when they are added, and separate factories never influence each other. A schedule loaded or made through a factory, and the objects that schedule makes, are of the classes registered.',
  ['histories'],
  'for every sequence of up to four mapping operations over a small set of names, files and classes, on two factories',
  'Tests call each operation once.',
  ['transitfeed/gtfsfactory.py'],
  [('GtfsFactory mapping operations', 'transitfeed/gtfsfactory.py')],
  None, [('_class_mapping, _file_mapping', 'registrations', 'transitfeed/gtfsfactory.py')])

p('C27', 'Building a schedule through the API keeps it consistent at every step',
  "After any sequence of API calls that add agencies, stops, routes, trips, service periods, fares, shapes, transfers and feed info, each entity added is retrievable under its identifier and listed once, automatic identifiers are new, and defaults (agency, service period) are the single existing one, the one set, or a fresh one. Adding an entity whose identifier exists (a duplicate transfer is only warned of and kept), a route whose agency or a fare rule whose fare is unknown, or a stop without an identifier, is reported to the reporter given and leaves the schedule as it was; a rule with an unknown route or zone and a trip with an unknown route or service are reported but kept. The columns to be written for agencies, stops, routes, trips, transfers and feed info cover every attribute that any of them has.",
  ['histories'],
  'for every sequence of up to four builder calls over small identifier domains, explicit and automatic',
  'Tests build one schedule in one order.',
  ['transitfeed/schedule.py', 'transitfeed/route.py', 'transitfeed/util.py', 'transitfeed/gtfsobjectbase.py'],
  [('Add*/Get*/Default*', 'transitfeed/schedule.py'), ('FindUniqueId', 'transitfeed/util.py')])

p('C28', 'The unusual trip filter marks exactly the rare trips, reproducibly',
  'The filter marks a trip of a route (sets its trip_type to 1) exactly when the share of the trips with its list of stops among all trips of that route is strictly below the threshold and the route is of the selected route type, if one is selected. It leaves every other trip and every other value as they were, except that with overwriting the trips of the routes looked at that are not marked get trip_type 0; without it they keep theirs. Its result depends only on the feed and the options.',
  ['inputs', 'configurations'],
  'for every small assignment of trips to routes and patterns, every threshold around the shares, every route type selection, with and without overwriting',
  'Tests filter one feed at one threshold.',
  ['unusual_trip_filter.py', 'transitfeed/route.py'],
  [('UnusualTripFilter', 'unusual_trip_filter.py')])

p('C29', 'Each field of each table is accepted or reported exactly by its rule',
  'For every table, a row is reported as missing a value exactly when a required field is blank, and as having an invalid value exactly when a field breaks its rule (format, range, enumeration, currency, timezone, reference, contrast of colours, names too similar, combination rules), always naming the field and with the stated severity. A blank field that must be a number or a reference in a row of shapes, stop times, calendar dates (exception_type), routes (agency) is an invalid value; oddly written numbers are only warned of. Rows of frequencies and shapes are judged from left to right up to the first unusable field, of stop times and calendar dates without a usable stop_sequence, stop or exception_type nothing else is judged, and references of transfers only if their other fields can be used. A row that obeys all rules is accepted silently and stored with the values given, numbers as numbers.',
  ['inputs'],
  'for every table and, against independent rules, every pair of field values over alphabets with blank, boundary, malformed and unicode values',
  'Tests try a few bad values per field, one field at a time.',
  ['transitfeed/agency.py', 'transitfeed/stop.py', 'transitfeed/route.py', 'transitfeed/trip.py', 'transitfeed/fareattribute.py', 'transitfeed/farerule.py', 'transitfeed/transfer.py', 'transitfeed/feedinfo.py', 'transitfeed/frequency.py', 'transitfeed/shapepoint.py', 'transitfeed/serviceperiod.py', 'transitfeed/stoptime.py'],
  [('Validate* methods', 'transitfeed/')])

p('C30', 'Reports of validation and merging state what the feeds hold and what was found',
  'The validation report names the feed path and extension, every agency (with its address), the numbers of routes, stops, trips and shapes, and the feed date range with dates written out (an unreadable date as it stands; none when there are no service dates). For the dates from the later of today and the first date, up to but not including the earlier of today plus 60 days and the last date, it states the first and last of these dates, the average (rounded down), greatest and least number of trip runs a day, and how many dates have the greatest and least, listing the first three; without such dates it states none. The merge report names both feeds and the merged feed if one was written, states for each kind of entity how many were combined and copied from each feed, lists every notice, error and warning once in its section under its file with the numbers of each, and claims success only without any; entities with the same identifier that were not combined are listed with that identifier.',
  ['inputs'],
  'for every feed, service calendar around today, set of merge problems and pair of feeds within the bounds',
  'Tests check that the calendar summary does not crash and that the reports contain some words.',
  ['feedvalidator.py', 'merge.py'],
  [('CalendarSummary, HTMLCountingProblemAccumulator.WriteOutput', 'feedvalidator.py'), ('HTMLProblemAccumulator', 'merge.py')])

p('C31', 'The shape importer gives every stop pattern the best matching line, or none',
  'For every stop pattern of every route: if lines start and end within the maximum distance of its first and last stop, the one of these with the least greedy match distance is used if that does not exceed the maximum, else no line; if there is none such, the shortest path along lines, in either direction and joined at common ends, through places within the maximum distance of every stop in turn is used under the same condition. All trips of a pattern then share a new shape with exactly the points of the line used, under an identifier not otherwise in use; trips of other patterns, existing shapes and everything else in the feed stay as they were. This holds however the lines are spread over shape files and an extra shapes.txt, and whether or not key columns are given.',
  ['inputs'],
  'for every set of lines, distance, key setting and feed within the bounds',
  'No test runs the importer.',
  ['shape_importer.py', 'transitfeed/shapelib.py'],
  [('main, AddShapefile, GetMatchingShape, AddExtraShapes', 'shape_importer.py')])

p('C32', 'The example programs build exactly the feed their input describes',
  'table.py makes a feed with the agency, service days, added and removed dates of its options, every stop of its list and, for every route table, a route with its two names and one trip per column of times that visits exactly the stops with a time in that column, ordered by time and, at equal times, as in the table; names of stops and sections are recognised in any case, blank lines may be repeated and blank cells at the end of rows left out. shuttle_from_xmlfeed.py does the same for every group (except Test), route and schedule of its XML, with the fixed service of 2007. filter_unused_stops.py removes, counts and, if asked, lists exactly the stops that no trip visits, no transfer names and that are not the station of a remaining stop, and changes nothing else. google_random_queries.py writes one query fewer than there are stops, up to the limit, each between places within 500 m in either coordinate of two stops at a time within the next seven days, no stop being used twice as start or as end.',
  ['inputs'],
  'for every table, XML file, feed and outcome of the random choices within the bounds',
  'Tests run each example once and look whether a file was written.',
  ['examples/table.py', 'examples/shuttle_from_xmlfeed.py', 'examples/filter_unused_stops.py', 'examples/google_random_queries.py'],
  [('ProcessTable, AddRouteToSchedule', 'examples/table.py'), ('SaveFeed', 'examples/shuttle_from_xmlfeed.py'), ('main', 'examples/filter_unused_stops.py'), ('WriteOutput', 'examples/google_random_queries.py')])

p('C33', 'The Zurich importer converts a DIVA export exactly',
  'Every station is written once, with its identifier, its position in WGS 84 by the approximation published by swisstopo, an UIC code if it has one of seven characters that starts with 85, a link with its original name, and its name and city: the special cases of the lists; else "str." and "Schiffst." at the end are written out, the city (under its proper name) is what stands before the first ", ", or else the first word, and the name is what follows it, preceded by the city if that is a general term as Bahnhof. Every line has its colours and type (tram, night bus, other bus). A service is active on exactly the days of its day types in the calendar of the plan, or of the months and bit mask of its restriction. Every normal trip (kind 1) whose pattern has a station at every place is written with the service of its restriction or else of its day mark, the name of its last station, and at every station that the line is advertised at (at all stations with --nodrop_unadvertised_lines) the start plus all driving and waiting times so far, without boarding or alighting where the boarding table says so for the number of the trip.',
  ['inputs'],
  'for every export within the bounds: names, positions, lines, calendars, bit masks, patterns, driving times, boarding codes and advertised lines',
  'There is no test of this program.',
  ['misc/import_ch_zurich.py'],
  [('DivaImporter.ImportStations, DemangleName, ConvertCH1903', 'misc/import_ch_zurich.py'), ('DivaImporter.ImportServices, ImportTrafficRestrictions', 'misc/import_ch_zurich.py'), ('DivaImporter.WriteTrips, WriteStopTimes', 'misc/import_ch_zurich.py')])

p('C34', 'Programs announce newer releases exactly, go on without the network and report crashes',
  'util.CheckVersion announces a release, given as argument or read from the page of the latest release, as a notice with its number exactly when it is newer than the running one, number by number; when the server cannot be reached, breaks off, answers with an error or anything that is not HTTP, or names no version, one notice says so and the program goes on. Under RunWithCrashHandler a program ends with the exit code it returned or asked for, interrupts pass through, and whatever exception a function raises, the exit code is 127 and the report printed and saved in transitfeedcrash.txt names the exception with its message, every function on the way with its local variables, each cut at 500 characters, and the version, also when values or the exception cannot be printed; misc/traceplus does the same without saving.',
  ['inputs', 'fault_sequences'],
  'for every version, answer or fault of the server, and every result, exception, depth and set of local variables within the bounds',
  'Tests have no server and crash in one way.',
  ['transitfeed/util.py', 'misc/traceplus.py'],
  [('CheckVersion, _MaxVersion', 'transitfeed/util.py'), ('RunWithCrashHandler', 'transitfeed/util.py'), ('RunWithExpandedTrace', 'misc/traceplus.py')])

p('C35', 'The files of a feed, their line ends, headers and cells are judged exactly',
  'Loading a feed names every required file that is missing (and calendar.txt when calendar_dates.txt is missing too), every empty file and, as a warning, every file it does not know except hidden ones, and nothing else. For every line that ends in something other than LF or CR LF it reports the line end with its row; a file with both kinds is reported once with the number of each and the rows of the first five; a missing end of the last line is fine. Form feeds, lone carriage returns and Unicode line, paragraph and next line separators within a line are named with the row, other characters are not. Of a header it reports every required column that is missing, every unknown column, every repeated column with how often it occurs and every deprecated column (with its new name, if there is one) and, in the tables read by name, blank columns, spaces at the end of a name and a header without any known column; nothing else. A row with too many or too few cells is reported with its row; the cells left over are ignored and those missing are blank, and none of these oddities changes what the rest of the feed means.',
  ['inputs'],
  'for every set of missing, empty and strange files, every word of line ends, listed character and line, small change of a header and length of a row within the bounds',
  'Tests show one small feed for each kind of problem; a miscount, a column missed in one file or an alarm about a healthy file shows elsewhere.',
  ['transitfeed/loader.py', 'transitfeed/util.py', 'transitfeed/gtfsfactory.py', 'transitfeed/gtfsfactoryuser.py'],
  [('EndOfLineChecker', 'transitfeed/util.py'), ('Loader._ReadCsvDict, _ReadCSV, _HasFile, _CheckFileNames', 'transitfeed/loader.py')])

p('C36', 'The programs do what their options say, in every combination and form',
  'Options have the same effect in long and short form, before, between or after the file names and in any order, and none changes the effect of another. The validator looks for duplicate trips only when told to, shows at most the given number (5) of each kind of problem in its page while counting all, leaves out the kinds to be ignored and nothing else, warns of gaps in service of the given number of days (13) or more, finds the same with the database in memory, writes its page to the file named (validation-results.html) or prints everything to the console and writes nothing else, and only without -n asks for a feed when none is given and shows the page in a browser; quotes around the name of a feed do not belong to it. The schedule viewer serves the feed named by an option, else by the argument, else by the answer to its question, at the given port with the files of the given directory, and its page has the key given, read from a file if it names one, else the one in key.txt, else one of its own, and the given host. The shape importer prints the columns and first values of every shape file on request and then writes nothing; its verbosity does not change its result. Command lines that lack something, or have something unknown or malformed, end with status 2 (a viewer without index.html with 1) and leave all files as they were, as do --help and --version, which end with 0. The smallest example writes its feed to the file named.',
  ['configurations', 'inputs'],
  'for every pair of option values in every form and place, every on/off combination, and every listed wrong command line',
  'Tests give one or two options at a time, and most options never.',
  ['feedvalidator.py', 'schedule_viewer.py', 'shape_importer.py', 'merge.py', 'kmlwriter.py', 'unusual_trip_filter.py', 'examples/small_builder.py'],
  [('ParseCommandLineArguments, RunValidationOutput...', 'feedvalidator.py'), ('main', 'schedule_viewer.py'), ('PrintColumns, DefineOptions, ValidateArgs', 'shape_importer.py')])

p('C37', 'Asking, validating and writing change neither a feed nor later answers',
  'What a schedule answers depends on its entities alone and not on what was asked before. After any history of questions (validation of the whole schedule with and without children and of every single object, writing the feed, KML export, dates of service and per-day counts, stops near a point or in a box, stop times, interpolated times, start and end, patterns and pattern ids, frequency runs, trips and times at stops, points on shapes, transfer distances, fares) and edits through the API (adding, replacing and clearing stop times and frequencies, changing service dates, week days and date exceptions, new agencies, stops, routes, trips, services, shapes, shape points, transfers, fares and rules, a new feed_info, changed attributes) every question gets the answer that a freshly loaded schedule gives to which only the edits were applied. Validation of any feed, sound or damaged, reports the same problems every time, with children at least those without, and leaves the meaning of the feed as it is. Lists handed out (of entities, stop times, runs, patterns, trips of a stop, active dates) belong to the caller, who may change them without changing the schedule.',
  ['histories', 'inputs'],
  'for every history of questions and edits up to the bound, on every listed feed, and every single-value fault validated repeatedly',
  'Tests ask one question of a fresh schedule and never look at what asking left behind.',
  ['transitfeed/schedule.py', 'transitfeed/trip.py', 'transitfeed/stop.py', 'transitfeed/route.py', 'transitfeed/serviceperiod.py', 'transitfeed/shape.py', 'kmlwriter.py'],
  [('Schedule.Validate, WriteGoogleTransitFeed', 'transitfeed/schedule.py'), ('pattern_id, GetTimeInterpolatedStops', 'transitfeed/trip.py'), ('Stop.Validate, trip_index', 'transitfeed/stop.py')])

p('C38', 'A timetable graph draws exactly the trips, stations and hours asked for',
  'MareyGraph, the graph behind the timetable page of the viewer, draws well-formed SVG whatever the ids. Every trip given is one line with its id, with a point for the arrival and one for the departure of each timed stop, one pixel per minute from the first hour shown, at the line of its stop; trips of one service have one colour and trips of different services different ones. Every stop has one level line, in order, at a height in proportion to the distances along the stops, or, when no stops are given or they are all at one place, to the travel times of the first trip (10 seconds where these are unknown or negative), from the top to 20 pixels above the bottom of the height given (520). SetSpan shows hours from the one before the first time (0 to 23) through the last time, within the least (5) and greatest (30) number given; each hour has a labelled line (modulo 24) and the subdivisions of 5 pixels have theirs. Drawing without arguments repeats the last picture. The station (from 0) or trips highlighted and the text put below are shown in the colour given, as they are written, until cleared or until the next drawing; the scale changes by 0.1 or to the value given as long as it stays between 0 and 5, exclusive. Nothing else is drawn.',
  ['histories', 'inputs'],
  'for every stop layout, set of trips, span and word of drawing, decorating and scaling calls up to the bound',
  'No test draws a graph.',
  ['gtfsscheduleviewer/marey_graph.py', 'schedule_viewer.py'],
  [('Draw, SetSpan, Add...Decoration', 'gtfsscheduleviewer/marey_graph.py'), ('handle_GET_ttablegraph', 'schedule_viewer.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))
