#!/usr/bin/env python3-vt
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from the catalogue below and the checks' own descriptions."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

M, I, D, S, P, U = ('weatherlink/%s.py' % n for n in ('models', 'importer', 'downloader', 'serial', 'poller', 'utils'))
X, W = 'weatherlink/exporter/mysql.py', 'weatherlink/exporter/wunderground.py'
SQL = 'weatherlink/exporter/mysql.sql'

NONE_YET = 'The existing tests do not reach this code at all; the property quantifies over %s.'

# id: (title, statement, over, quantifier text, why tests cannot, [(mechanism, where)], technique)
C = {}


def add(id, title, statement, over, text, why, mechanism, technique, observe):
	C[id] = dict(title=title, statement=statement, over=over, text=text, why=why, mechanism=mechanism, technique=technique, observe=observe)


add('C01', 'A .wlk file imports completely, in order, under the right days',
	'Importing a WeatherLink .wlk database file yields the header, exactly one daily summary for each day that has data, and every archive record of '
	'every day, in file order, both as one list and by day; days without data yield nothing. The year and month come from the file name, wherever the '
	'file lies, so every record and summary is dated in that month. Importing again gives the same result and the file is only read.',
	['inputs', 'configurations'], 'All well-formed .wlk files: any month, any days with data, any number of records per day, any path ending in YYYY-MM.wlk.',
	'Tests import one sample file, with one layout of days and records.',
	[('day index walk', I + ': Importer.import_data'), ('file name parsing', I + ': Importer.__init__'), ('header and index layout', M + ': Header, DayIndex')],
	'property-based testing: encode generated files, import, compare (round trip)', ['Importer.header, daily_summaries, records, daily_records'])

add('C02', 'Every field of a .wlk archive record decodes exactly',
	'Each field of an archive record in a .wlk file is decoded at its documented offset, size, sign and scale to an exact decimal or integer, and its '
	'documented no-data value decodes to none; wind directions decode to the compass point and its degrees, and unused bytes have no influence. Rain '
	'amount and rate are the clicks times the size of the record\'s own rain collector, exactly. The record\'s date is the file\'s day plus the stored '
	'minutes past midnight (1440 being the next midnight), and its packed time stamp is that of this date.',
	['inputs'], 'All 88-byte records with record type 1: every field value, every defined rain collector and direction code, every date.',
	'Tests decode a handful of fixed records; wrong signs, scales, offsets or no-data values show only for other stored values.',
	[('format and attribute maps', M + ': ArchiveIntervalRecord.RECORD_FORMAT_WLK, RECORD_ATTRIBUTE_MAP_WLK'), ('decoding', M + ': ArchiveIntervalRecord.load_from_wlk')],
	'property-based testing against an independent byte-offset codec', ['ArchiveIntervalRecord attributes'])

add('C03', 'Every field of a .wlk daily summary decodes exactly',
	'Each supported field of the daily summary in a .wlk file is decoded at its documented offset, size, sign and scale to an exact decimal or integer, and '
	'its documented no-data value decodes to none, including the sentinel that differs between highs and lows. Wind directions decode to compass points, '
	'the date is that of the day, and unused bytes have no influence.',
	['inputs'], 'All 176-byte daily summaries with the right type bytes, any stored values.',
	'Tests decode the summaries of one sample file.',
	[('format and attribute maps', M + ': DailySummary.DAILY_SUMMARY_FORMAT, DAILY_SUMMARY_ATTRIBUTE_MAP'), ('decoding', M + ': DailySummary.load_from_wlk')],
	'property-based testing against an independent byte-offset codec', ['DailySummary attributes'])

add('C04', 'Every field of a downloaded archive record decodes exactly',
	'Each field of a downloaded archive record is decoded at its documented offset, size, sign and scale to an exact decimal or integer, and its documented '
	'no-data value decodes to none; the date comes from the packed date and time stamps, the covered minutes from the archive interval, and rain is '
	'counted in hundredths of an inch. Exactly 52 bytes are consumed per record. An unused slot (date stamp below 1) yields no record.',
	['inputs'], 'All 52-byte records of revision B from 2000 to 2063, any stored values, and runs of them in one stream.',
	'Tests decode a handful of fixed records.',
	[('format and attribute maps', M + ': ArchiveIntervalRecord.RECORD_FORMAT_DOWNLOAD, RECORD_ATTRIBUTE_MAP_DOWNLOAD'), ('decoding', M + ': ArchiveIntervalRecord.load_from_download')],
	'property-based testing against an independent byte-offset codec', ['ArchiveIntervalRecord attributes', 'stream position'])

add('C05', 'A download session asks correctly and yields exactly the announced records',
	'A download makes a headers request and then an unencoded data request, each carrying the requested time stamp and credentials so that the server '
	'decodes exactly what the user gave, whatever characters they contain. It yields the console information and all announced records in order, ending '
	'early at an unused slot and only there, and nothing from an earlier download of the same object. Missing credentials, a wrong content type, transfer encoding, '
	'content encoding or station model, missing headers, truncated data and lost connections are reported as errors.',
	['inputs', 'histories', 'fault_sequences'], 'All credentials, start times, header orders, records, and sequences of downloads; all malformed or interrupted answers of the listed kinds.',
	'Tests use mocked responses with fixed plain credentials and one or two records.',
	[('requests and checks', D + ': Downloader.download'), ('header parsing', D + ': Downloader._process_headers'), ('record loop', D + ': Downloader._process_download')],
	'stateful property-based testing against an in-process HTTP server double', ['HTTP requests', 'Downloader.records and header attributes'])

add('C06', 'Every field of a LOOP2 packet decodes exactly',
	'Each supported field of a LOOP2 packet is decoded at its documented offset, size, sign and scale, and its documented no-data value decodes to none; wind '
	'directions also give the nearest compass point, rain clicks also the amount in hundredths of an inch, and the barometric trend its named value. The '
	'packet\'s checksum is verified over all its bytes and the result is part of the record. Exactly 99 bytes are consumed per packet.',
	['inputs'], 'All 99-byte LOOP2 packets with valid constant bytes, any stored values, right and wrong checksums.',
	'Tests decode one or two fixed packets.',
	[('format and attribute maps', M + ': LoopRecord.LOOP2_RECORD_FORMAT, LOOP2_RECORD_ATTRIBUTE_MAP'), ('decoding', M + ': LoopRecord._get_loop_2_arguments, _post_process_arguments')],
	'property-based testing against an independent byte-offset codec', ['LoopRecord attributes', 'stream position'])

add('C07', 'Damaged or foreign data is rejected, never decoded',
	'Truncated records, packets, summaries and files, records whose type, version or marker bytes differ from the documented ones, and undefined rain '
	'collector or wind direction codes raise an error instead of yielding a record. A file name that is not YYYY-MM.wlk is refused.',
	['inputs', 'fault_sequences'], 'All cuts of valid encodings, all other values of each constant byte, all undefined codes.',
	'Tests check one or two wrong values of one constant.',
	[('verification maps', M + ': *_VERIFICATION_MAP*'), ('struct unpacking of exact lengths', M), ('enumerations', M + ': WindDirection, RainCollectorTypeDatabase')],
	'fuzzing by damaging generated valid encodings', ['exceptions'])

add('C08', 'Packed time stamps and dates convert both ways without loss, in order',
	'Converting a date and time to a WeatherLink packed time stamp and back gives the same date, hour and minute, for every minute; the time stamp is the '
	'documented packing. Of two different minutes, the later has the larger time stamp. A value that is not a date passes through conversion to a time stamp unchanged.',
	['inputs'], 'All minutes from 2000 to 2127.', 'Tests convert a few dates.',
	[('packing', M + ': convert_datetime_to_timestamp'), ('unpacking', M + ': convert_timestamp_to_datetime')],
	'property-based testing (round trip, order) and enumeration of days', ['return values'])

add('C09', 'The checksum is CRC-CCITT and detects every burst of up to 16 bits',
	'The checksum of any byte string is the CRC with polynomial x^16+x^12+x^5+1 and initial value 0, so appending it (high byte first) makes the checksum of the '
	'whole 0. Any change confined to 16 consecutive bits of such a message changes the checksum from 0.',
	['inputs'], 'All byte strings; all burst errors of up to 16 bits.', 'Tests compute a few checksums; one wrong entry of the 256-entry table escapes them.',
	[('table', M + ': WEATHERLINK_CRC_TABLE'), ('computation', M + ': calculate_weatherlink_crc')],
	'differential testing against bit-by-bit polynomial division, small inputs enumerated', ['return values'])

add('C10', 'Wind directions in degrees map to the nearest compass point, and back',
	'A direction of 1 to 360 whole degrees maps to the nearest of the 16 compass points (at the borders, which lie between whole degrees, to either neighbor), and anything outside that range to none. Each compass point\'s code and '
	'degrees are those of the documentation, north being 360.',
	['inputs'], 'All whole degrees and all codes.', 'Tests check a few directions of the 360-entry map.',
	[('map', M + ': WindDirection.from_degrees'), ('points', M + ': WindDirection')],
	'enumeration of the whole input space against the nearest-angle rule', ['return values'])

add('C11', 'Rain clicks convert to inches and centimeters by the collector\'s click size',
	'For every rain collector type, in the serial and in the database coding, n clicks (or a mean of n) are n times the documented click size in inches, and in centimeters by the '
	'documented factor of 0.393701 inches per centimeter. Undefined collector codes are refused.',
	['inputs'], 'All collector types and numbers of clicks.', 'Tests convert a few numbers of clicks for some types.',
	[('conversions', M + ': RainCollectorTypeSerial, RainCollectorTypeDatabase')],
	'property-based testing and enumeration against exact arithmetic', ['return values'])

add('C12', 'Unit conversions are exact to their documented rounding, monotone and invertible',
	'Temperature and pressure conversions equal the exact physical conversion, rounded to the documented number of places. They are monotone, and converting there and back '
	'returns the original within the rounding.',
	['inputs'], 'All integers and decimals in the physical range.', 'Tests convert a few values.',
	[('conversions', U + ': convert_*')],
	'property-based testing against exact rational arithmetic; metamorphic (order, round trip)', ['return values'])

add('C13', 'The heat index is the National Weather Service formula everywhere',
	'For any temperature and relative humidity the heat index is that of the documented National Weather Service procedure (simple formula, regression and both adjustments, '
	'each in its range), rounded up to a tenth. Where the procedure defines no heat index (below its lowest temperature), none is returned.',
	['inputs'], 'Temperatures from -60 to 150 degrees Fahrenheit and humidities from 0 to 100 percent, whole and fractional.',
	'Tests sample some points; thresholds and branches of the piecewise formula lie between them.',
	[('formula', U + ': calculate_heat_index')],
	'property-based testing and grid sweep against an exact rational reference', ['return values'])

add('C14', 'The wind chill is the National Weather Service formula everywhere',
	'For any temperature up to 40 degrees Fahrenheit and any wind speed the wind chill is that of the documented National Weather Service formula, rounded down to a tenth, but never more than '
	'the air temperature, which it equals without wind; above 40 degrees there is none. It never rises with the wind and never falls when the air is warmer.',
	['inputs'], 'Temperatures from -80 to 60 degrees Fahrenheit and winds from 0 to 120 miles per hour, whole and fractional.',
	'Tests sample some points; thresholds lie between them.',
	[('formula', U + ': calculate_wind_chill')],
	'property-based testing and grid sweep against a 60-digit reference; metamorphic (monotonicity)', ['return values'])

add('C15', 'Dew point and wet bulb temperature follow their formulas everywhere',
	'Dew point and wet bulb temperature equal the documented formulas, rounded to the nearest tenth (intermediate values may be rounded as the unit conversions document). The dew point never '
	'exceeds the temperature and never falls with humidity, and in saturated air both equal the temperature.',
	['inputs'], 'Temperatures from -40 to 130 degrees Fahrenheit, humidities from 1 to 100 percent, pressures from 20 to 33 inches of mercury.',
	'Tests sample some points.',
	[('formulas', U + ': calculate_dew_point, calculate_wet_bulb_temperature')],
	'property-based testing and grid sweep against a 60-digit reference; metamorphic (order)', ['return values'])

add('C16', 'THW and THSW indices follow their formulas everywhere',
	'The temperature-humidity-wind index is the heat index minus 1.072 times the wind speed (that reduction rounded up to a tenth), and none where there is no heat index; the temperature-humidity-sun-wind '
	'index is the documented apparent temperature formula, at any temperature, rounded to the nearest tenth. More wind never raises an index, and more sun never lowers one.',
	['inputs'], 'The physical range of temperature, humidity, radiation and wind.', 'Tests sample some points.',
	[('formulas', U + ': calculate_thw_index, calculate_thsw_index')],
	'property-based testing against exact and 60-digit references; metamorphic laws', ['return values'])

add('C17', 'Degree days measure the distance from 65 degrees on the right side',
	'For an average temperature, heating degree days are how far it lies below 65 degrees Fahrenheit and cooling degree days how far above, exactly. '
	'The one that does not apply is absent, and at exactly 65 degrees both are.',
	['inputs'], 'All average temperatures from -60 to 140 with up to five decimals.', 'Tests check a few averages.',
	[('formulas', U + ': calculate_heating_degree_days, calculate_cooling_degree_days')],
	'property-based testing and enumeration of tenths', ['return values'])

add('C18', 'The 10-minute wind average is the true maximum over all windows',
	'For any sequence of wind records, the highest 10-minute average is the largest time-weighted mean wind speed of any ten minutes of consecutive records that end where a record ends, with the '
	'prevailing direction and the start and end time of that window. Records without wind speed count as calm, and less than ten minutes of records, or no wind at all, give none.',
	['inputs', 'histories'], 'All sequences of wind records covering whole minutes, of equal or mixed lengths, with missing speeds, ties and calm.',
	'Tests run one or two sequences with one record length.',
	[('sliding window', U + ': calculate_10_minute_wind_average')],
	'property-based testing against a minute-by-minute brute-force reference', ['return values'])

add('C19', 'Derived values of a record follow from its measurements, and only from them',
	'From a record\'s measurements, each derived value (wet bulb, dew point, heat index, wind chill, THW, THSW, with lows and highs, inside values, wind run) is the value of its single formula for the '
	'record\'s own measurements; lows and highs are the lowest and highest over the temperatures (and winds and radiation) present. A value whose inputs are missing is absent, a measurement of zero degrees counts as '
	'a measurement, and the record is not changed.',
	['inputs'], 'All records: any values, any subset of measurements missing.', 'Tests derive from a few complete records.',
	[('composition', U + ': calculate_all_record_values')],
	'property-based testing against a compositional reference', ['returned mapping', 'the record afterwards'])

add('C20', 'Each exported record becomes exactly one committed row with its values',
	'Exporting a record to MySQL commits exactly one row in the configured table whose columns hold the record\'s values, wind directions by name, derived values, local date parts and times, converted only as the column type requires; '
	'missing values are stored as null and zeros as zeros. Configured column names are honoured, and attributes configured not to be inserted are left out. A second record with the same time stamp is rejected and changes nothing.',
	['inputs', 'configurations', 'histories'], 'All records, table and column configurations, and export histories with duplicates.',
	'No test exports a record to a database.',
	[('row building', X + ': MySQLExporter.export_record, _add_*_to_arguments'), ('schema', SQL)],
	'stateful property-based testing against a database double built from the schema', ['rows after the connection is closed'])

add('C21', 'Station times are converted to UTC with the offset valid at that time',
	'In every time zone, given as a name or a time zone object or left at the default (America/Chicago), the UTC time that the MySQL and Weather Underground exporters give for a record is one that the zone shows as the record\'s station '
	'time, with daylight saving as of that date. Changing the zone affects later records only, and the record\'s own date stays as it is.',
	['inputs', 'configurations'], 'All time zones of the database and all station times from 2001 to 2035, concentrated around offset changes.',
	'No test exports with a real time zone.',
	[('localization', X + ': MySQLExporter._add_timestamp_values_to_arguments'), ('localization', W + ': WundergroundExporter._send_update')],
	'property-based testing (round trip through the zone), all zones enumerated', ['timestamp_utc column', 'dateutc parameter'])

add('C22', 'Daily summaries equal the statistics of the day\'s records',
	'After recalculation, each requested day has one daily summary, and no other day has, whose totals, averages, highs, lows, wind run, prevailing and high wind directions, 10-minute wind average and degree days are those of exactly the records of '
	'that station day. Missing values are left out of statistics, statistics without any values are null.',
	['inputs', 'histories'], 'All archives of records, including missing, tied, zero and negative values and month and year ends.',
	'No test calculates summaries.',
	[('statistics', X + ': MySQLExporter._recalculate_daily_summary, _recalculate_summary_from_arguments')],
	'property-based testing against a reference computed from the stored records', ['rows of the summary table'])

add('C23', 'Weekly, monthly and yearly summaries equal the statistics of their records',
	'After recalculating for some dates, the ISO week (Monday to Sunday, of the ISO year), month and year of each of them has one summary with the statistics of exactly the records of the period. Degree days are the sums, '
	'and the 10-minute wind average the highest, over the period\'s own daily summaries, and average daily, weekly and monthly wind runs are the means over its summaries of that kind. Periods that contain none of the dates are left alone.',
	['inputs', 'histories'], 'All archives of records around week, month, year and leap-year boundaries, and all orders of dates.',
	'No test calculates summaries.',
	[('periods', X + ': MySQLExporter.recalculate_summaries_for_dates, _recalculate_weekly_summary, _recalculate_monthly_summary, _recalculate_yearly_summary'),
		('aggregation', X + ': MySQLExporter._aggregate_*')],
	'property-based testing against a reference computed from the stored records', ['rows of the summary table'])

add('C24', 'The time of every extreme is the first time it occurred in the period',
	'For every high and low of every daily, weekly, monthly and yearly summary, the stored time is the station time of the earliest record of that period which holds the extreme, also when the extreme is negative, exactly zero or occurs '
	'repeatedly. Equal values outside of the period have no influence; an absent extreme has no time.',
	['inputs', 'histories'], 'All archives with tied, zero and negative extremes in and around the period.', 'No test calculates summaries.',
	[('time lookup', X + ': MySQLExporter._recalculate_summary_from_arguments')],
	'property-based testing against a reference computed from the stored records', ['rows of the summary table'])

add('C25', 'Recalculation converges: repeated, reordered, piecewise or interrupted',
	'Recalculating summaries again changes nothing, the order and repetition of dates do not matter, and recalculating as records arrive ends in the same summaries as one recalculation of everything. Recalculating the dates of records that were corrected or removed leaves nothing of the old values. After a failure at any database '
	'operation, each single summary is either as before or completely new, whatever the connection is used for next, and repeating the recalculation gives the result of one that was not interrupted.',
	['histories', 'crash_points', 'fault_sequences'], 'All archives, orders, batches and failing database operations.', 'No test calculates summaries twice or injects failures.',
	[('upsert per summary and commit', X + ': MySQLExporter._recalculate_summary_from_arguments'), ('order of periods', X + ': MySQLExporter.recalculate_summaries_for_dates')],
	'stateful property-based testing with fault injection; metamorphic', ['rows of the summary table'])

add('C26', 'Rain events partition the rain: none lost, split or merged wrongly',
	'A rain event starts with the first record with rain and goes on until the rain pauses for more than three hours, ending with its last record with rain; its total, start, end, average and highest rate (and when) are those of exactly its records, however many there are. '
	'Every record with rain belongs to exactly one event, an event whose last rain is less than three hours before the newest record is ongoing and has no end yet, and searching again changes nothing.',
	['inputs', 'histories'], 'All rain histories, including gaps at exactly three hours and events of thousands of records.',
	'No test searches for rain events.',
	[('segmentation', X + ': MySQLExporter.find_new_rain_events, _get_rain_records_after')],
	'property-based testing against a reference segmentation', ['rows of the rain event table', 'return value'])

add('C27', 'Searching for rain incrementally equals searching once',
	'When records arrive in batches, searching after each batch continues, ends or adds events so that the events always equal those of one search over all records so far. A search interrupted by a failure at any database operation, then '
	'repeated, gives the same events as one that was not interrupted, without duplicates.',
	['histories', 'crash_points', 'fault_sequences'], 'All rain histories, all ways to batch them, all failing database operations.', 'No test searches for rain events.',
	[('continuation of ongoing events', X + ': MySQLExporter.find_new_rain_events')],
	'stateful property-based testing with fault injection; metamorphic', ['rows of the rain event table'])

add('C28', 'Database failures surface, and nothing stays open behind them',
	'When any database operation fails (connecting, executing, fetching, committing, closing), the caller gets the original error, not one from cleaning up; every cursor that can be closed is closed, disconnecting always releases the connection, '
	'and leaving a with block never replaces the block\'s own exception. Afterwards a new connection works and the operation can be repeated, also on the same connection where that still works; what a failed operation left unfinished is never committed by a later one. No operation fails because an earlier one left results unread.',
	['fault_sequences', 'histories', 'crash_points'], 'All operations, all failing database operations, all histories of connecting and disconnecting.', 'No test injects database failures.',
	[('cursor handling', X + ': MySQLExporter._get_cursor'), ('connection handling', X + ': MySQLExporter.connect, disconnect, __exit__')],
	'fault injection at generated operations of a database double', ['exceptions', 'open cursors and connections of the double'])

add('C29', 'Nothing happens on the console link without acknowledgement',
	'Every instruction sent to the console is followed by reading one acknowledgement byte: 0x06 lets the operation proceed, 0x15 and 0x21 raise the not-acknowledged error, any other byte raises the invalid-acknowledgement error. After a refusal '
	'neither data is sent nor data read for that operation, and the next operation on the connection works.',
	['inputs', 'histories', 'fault_sequences'], 'All 256 acknowledgement bytes for every operation, and histories of operations.', 'Tests check the acknowledgement constants with mocks for one operation.',
	[('acknowledgement', S + ': SerialCommunicator._send_instruction, _confirm_ack')],
	'enumeration of all bytes and stateful property-based testing against a console double', ['exceptions', 'bytes sent to the console double'])

add('C30', 'Console settings read back exactly, and corruption is detected',
	'Reading a configuration setting of any address and length returns exactly the console\'s bytes however the answer is fragmented, and writing sends exactly the data with its checksum, so that a later read returns it. When the checksum is '
	'to be confirmed, any damaged or shortened answer raises an error. Data of the wrong length is refused before anything is sent, and the setup bits decode to the documented settings.',
	['inputs', 'histories', 'fault_sequences'], 'All addresses, lengths, data, fragmentations and single-bit or burst damages.', 'Tests read one or two settings from a mock in one piece.',
	[('reading and writing', S + ': ConfigurationSettingMixin'), ('setup bits', S)],
	'stateful property-based testing against a model of the console memory, with damage injection', ['return values', 'console memory of the double'])

add('C31', 'The IP connection is opened once, closed always, and reusable',
	'Connecting opens one TCP connection to the given host and port (22222 by default), connecting twice or using or closing a closed connection is an error, and disconnecting or leaving a with block closes it even if closing or the block fails. After '
	'a failed attempt or a disconnection the same object can connect again. The block\'s own exception is never replaced.',
	['histories', 'fault_sequences'], 'All histories of connecting, disconnecting and using, with failures of connecting and closing.', 'Tests check single steps with mocks.',
	[('connection', S + ': SerialIPCommunicator')],
	'stateful property-based testing against a two-state model', ['sockets of the double', 'exceptions'])

add('C32', 'Polling returns exactly the requested packets, however TCP delivers them',
	'Polling n packets asks the console once for n packets of the configured type and returns exactly n records in order, each equal to its packet, however the bytes are fragmented, and repeatedly on one connection. If the connection ends early, polling fails '
	'instead of returning fewer or wrong records. No byte beyond the packets stays unread and no file handle stays open, and '
		'failing to close one never hides an earlier error.',
	['inputs', 'histories', 'fault_sequences'], 'All packets, counts, fragmentations and cut points.', 'Tests poll from a mock that returns whole packets.',
	[('polling', P + ': Poller.poll, _receive_loop_packets'), ('instruction', P + ': Poller.POLL_INSTRUCTION')],
	'property-based testing against a console double with generated fragmentation', ['records', 'bytes sent to and left at the console double'])

add('C33', 'Background polling delivers in order, stops when told, and can always restart',
	'Background polling calls the callback once per received packet, in order, with that packet\'s record, until the count is reached or it is stopped; after a stop at most one more packet is delivered and the console is told to stop sending. Starting '
	'while running and stopping while not running are errors without effect. However it ends (count, stop, refusal, connection end, bad packet, failing callback), polling can be started again on the same object and its file handle is closed.',
	['schedules', 'histories', 'fault_sequences'], 'All histories of sessions and stops at any packet boundary, from outside or from within the callback, ending in any of the listed ways.',
	'Tests run at most one session with a mocked receiver.',
	[('session state', P + ': Poller.start_background_polling, stop_background_polling, _receive_background_packets'), ('loop', P + ': Poller._receive_loop_packets')],
	'stateful property-based testing with a controlled schedule of packets and stops', ['callbacks', 'bytes sent to the console double', 'exceptions'])

add('C34', 'Weather Underground updates carry exactly the record\'s values',
	'A simple or rapid update is one request to its documented address whose decoded parameters carry the station ID, the password exactly as given, the UTC time and each documented measurement of the record, zeros included. Missing measurements are '
	'left out entirely. Simple updates carry the dew point calculated from temperature and humidity when both are present.',
	['inputs'], 'All records with any values missing or zero, all passwords.', 'No test sends an update.',
	[('parameter maps', W + ': WundergroundExporter.ATTRIBUTE_MAP_*, ATTRIBUTE_CALCULATIONS_*'), ('request', W + ': WundergroundExporter._send_update')],
	'property-based testing against an in-process HTTP server double', ['decoded query parameters'])

add('C35', 'Rapid updates report gust and mean direction of the right window',
	'Each rapid update reports as gust the highest wind speed of the last minute of rapid updates (24 packets of 2.5 seconds) with the direction of that wind, and as average direction the circular mean of the directions of the last two minutes (48 packets), to a '
	'whole degree. A packet whose update was refused counts all the same. Older packets, missing values and interspersed simple updates have no influence; without any values in the window the parameter is left out.',
	['histories'], 'All histories of rapid updates with missing values, directions around north and occasional simple updates.', 'No test sends an update.',
	[('gust', W + ': _get_wind_gust'), ('direction', W + ': _get_2_minute_average_wind_direction'), ('history', W + ': WundergroundExporter.record_queue')],
	'stateful property-based testing against a model of the history', ['decoded query parameters'])

add('C36', 'An update succeeds exactly when Weather Underground says so',
	'Sending an update returns normally exactly when the answer has a 2xx status and the body "success"; any other status or body and any transport error raises. A failed update does not prevent the next one.',
	['inputs', 'histories', 'fault_sequences'], 'All statuses, bodies and transport errors, in any sequence.', 'No test sends an update.',
	[('response check', W + ': WundergroundExporter._send_update')],
	'property-based testing and enumeration of statuses against an HTTP server double', ['exceptions'])

add('C37', 'Records behave alike as mappings and as objects, and can be copied and stored',
	'An attribute of a record and its item of the same name are always the same value, however it was set; a missing one raises the usual error for each kind of access, so that the usual probing for attributes works. Copying (shallow, deep) and pickling a record '
	'gives an equal, independent record of the same type, also for records as loaded, with their enumeration members.',
	['histories', 'inputs'], 'All sequences of attribute and item operations, all loaded records, all pickle protocols.', 'Tests read attributes of loaded records.',
	[('attribute access', M + ': RecordDict.__getattr__, __setattr__')],
	'stateful property-based testing against a dict as model', ['record contents', 'exceptions'])

add('C38', 'The same measurements give the same record, whichever way they arrive',
	'A measurement that reaches the library through a .wlk file and through a download gives records with equal values for every attribute both have, equal derived values and equal database rows. Every physically plausible record from either source can be '
	'completed with derived values and stored without an error.',
	['inputs', 'configurations'], 'All physically plausible measurements at the resolution both sources share, any of them missing.', 'Tests never compare the sources.',
	[('file source', M + ': ArchiveIntervalRecord.load_from_wlk'), ('download source', M + ': ArchiveIntervalRecord.load_from_download'), ('derivation', U + ': calculate_all_record_values')],
	'differential and metamorphic property-based testing of the two sources', ['record attributes', 'derived values', 'rows'])

add('C39', 'Repeated synchronization stores every record once, whatever interrupts it',
	'Downloading from the newest stored time stamp and exporting what arrives, repeated while new records appear, stores every record of the account exactly once, with no gap and no duplicate. An interruption at any point (a lost request, or a failing '
	'database operation, even a commit whose answer is lost) only delays this. The newest stored time stamp is that of the latest record, in whatever order records were stored, and none for an empty archive.',
	['histories', 'crash_points', 'fault_sequences'], 'All histories of arriving records and synchronizations, interrupted at any request or database operation.', 'No test combines download and export.',
	[('resume point', X + ': MySQLExporter.get_newest_timestamp'), ('request', D + ': Downloader.download'), ('one commit per record', X + ': MySQLExporter.export_record')],
	'stateful property-based testing of the whole pipeline with fault injection', ['rows', 'requests'])

add('C40', 'Objects of one kind used side by side behave as if each were alone',
	'Importers, downloaders, exporters, connections and records used side by side behave as if each were alone: what one was configured with, has stored, read or sent never shows up in another. Records, and lists of them, obtained earlier never change when another object, '
	'or the same one, is used again.',
	['histories', 'configurations'], 'All interleavings of uses of up to three differently configured objects of each kind.', 'Tests use one object at a time.',
	[('importer state', I + ': Importer.__init__, import_data'), ('downloader state', D + ': Downloader'), ('exporter state and configuration', X + ': MySQLExporter; ' + W + ': WundergroundExporter'),
		('poller queues', P + ': IPPoller')],
	'stateful property-based testing of several objects against a model of each', ['records, requests, rows, bytes and configuration of each object'])

add('C41', 'Calculations depend only on their arguments and change nothing',
	'The result of every calculation and conversion is determined by its arguments: a whole number gives the same result as an integer or as a decimal in any notation, in any order of calls and in any thread. Arguments (including lists of wind '
	'records and records) and the caller\'s decimal settings are left unchanged.',
	['inputs', 'histories', 'schedules'], 'All calculations and conversions, with whole numbers in all notations, in all orders and in concurrent threads.', 'Tests call each function once with decimals of one notation.',
	[('calculations', U + ': calculate_*, convert_*'), ('conversions', M + ': convert_datetime_to_timestamp, convert_timestamp_to_datetime, calculate_weatherlink_crc, WindDirection, RainCollectorType*')],
	'metamorphic property-based testing (notation, order, threads, unchanged arguments)', ['results, arguments and decimal context'])

add('C42', 'Archive, summaries and rain events equal the statistics of the measurements',
	'Whatever part of a station\'s measurements comes from .wlk files and whatever part from repeated downloads, exporting, summarizing and searching for rain as records arrive leaves an archive, summaries and rain events that equal the '
	'statistics of the measurements themselves. Every measurement counts exactly once, under its own station time, also at the ends of days, weeks, months and years.',
	['histories', 'inputs'], 'All histories of plausible measurements, split in any way between files and downloads, and summarized at once or later.', 'No test combines the components.',
	[('import', I + ': Importer.import_data'), ('download', D + ': Downloader.download'), ('rows, summaries and events', X + ': export_record, recalculate_summaries_for_dates, find_new_rain_events')],
	'stateful property-based testing of the whole pipeline against reference statistics of the measurements', ['archive, summary and rain event rows'])

add('C43', 'The settings of the computer do not matter',
	'Everything that the library reads, decodes, calculates, stores, sends or rejects is the same whatever the settings of the computer that it runs on: the local time zone and its clock changes, optimized Python (-O), the hash seed, the interpreter (CPython or PyPy), '
	'the locale and encoding, and the current directory. In particular, damaged data and refused requests are rejected in all of them.',
	['inputs', 'configurations'], 'All inputs of the other properties, under every one of these settings.', 'The tests run in one environment.',
	[('all of the library', 'weatherlink')],
	'property-based differential testing: generated cases of 55 other sub-checks judged in processes with different settings', ['verdicts of the other checks'])


REACH = {
	'C01':'every layout of days, counts and records, instead of one sample file',
	'C02':'every stored value of every field; sign, scale, offset and no-data mistakes show only for other values',
	'C03':'as C02, for the two summary records of a day',
	'C04':'as C02, for downloaded records and runs of them in a stream',
	'C05':'credentials, orders and sequences a fixed mock does not have',
	'C06':'as C02, for LOOP2 packets',
	'C07':'every cut and every wrong constant',
	'C08':'every minute of 128 years, and order between any two',
	'C09':'every table entry, and the detection guarantee itself',
	'C10':'the whole input space, by enumeration',
	'C11':'all types and all amounts a console can send',
	'C12':'all values, and laws between values',
	'C13':'every branch and threshold of the piecewise formula',
	'C14':'thresholds, the cap and both monotonicities',
	'C15':'the whole grid, at higher precision than the code',
	'C16':'the whole range and the laws between results',
	'C17':'every tenth, both sides of the threshold',
	'C18':'every mixture of record lengths, calm and missing values, against brute force',
	'C19':'all subsets of missing measurements and zeros',
	'C20':'the whole path from record to committed row, which no test runs',
	'C21':'all zones and offset changes',
	'C22':'statistics over generated archives with nulls, ties and zeros',
	'C23':'periods across month, year and ISO-year ends',
	'C24':'ties, negative and zero extremes, equal values outside the period',
	'C25':'orders, repetitions, batches, corrections and failures at every database operation',
	'C26':'gaps at exactly the limit and events longer than one batch',
	'C27':'all batchings and failures',
	'C28':'a failure at each operation, including while cleaning up',
	'C29':'all 256 answers of every operation',
	'C30':'all addresses, lengths, fragmentations and damages',
	'C31':'all short histories with failures',
	'C32':'all fragmentations and cut points',
	'C33':'sequences of sessions ending in different ways, with the stop at a known point',
	'C34':'missing and zero values, reserved characters',
	'C35':'windows that have filled up, directions around north, gaps',
	'C36':'all statuses, and what follows a failure',
	'C37':'all operation sequences against a dict',
	'C38':'two sources compared with each other, which no test does',
	'C39':'two components together, with interruptions',
	'C40':'several objects in turns, which no test has',
	'C42':'the components together, from bytes to statistics',
	'C43':'inputs in environments that no test runs in',
	'C41':'notations, orders and threads no test has',
}


LEVEL_NOTE = (
	'Generated-input search over the space named in the evidence, %(count)s cases per quick run (%(subs)s); failures shrink to a replayable case. '
	'No claim beyond the explored cases. %(assumptions)s'
)


def design(modules):
	out = [open(os.path.join(VERIF, 'tools', 'design_head.md')).read()]
	for id in sorted(C):
		p, c = modules[id].PROPERTY, C[id]
		out.append('### %s: %s\n\n' % (id, c['title']))
		out.append('- **Anchored in:** %s.\n' % '; '.join('%s (`%s`)' % m for m in c['mechanism']))
		out.append('- **Cases and non-triviality:** %s\n' % p.rule)
		out.append('- **Sub-checks (quick cases):** %s.\n' % ', '.join('%s %s' % (s.name, s.quick if s.strategy else '(enumerated)') for s in p.subs))
		out.append('- **Deciding method:** %s. Observed: %s.\n' % (c['technique'], '; '.join(c['observe'])))
		if p.assumptions:
			out.append('- **Left open or assumed:** %s\n' % ' '.join(p.assumptions))
		out.append('- **Reaches what tests cannot:** %s.\n\n' % REACH[id])
	out.append(open(os.path.join(VERIF, 'tools', 'design_tail.md')).read())
	seeds = os.path.join(VERIF, 'tools', 'seeds.md')
	if os.path.exists(seeds):
		out.append(open(seeds).read())
	with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
		f.write(''.join(out))


def main():
	from wlv import env
	env.setup()
	lines, checks, modules = [], [], {}
	for id in sorted(C):
		c = C[id]
		module = importlib.import_module('checks.%s' % id.lower())
		modules[id] = module
		p = module.PROPERTY
		assert p.id == id and len(c['title']) <= 80, (id, len(c['title']))
		files = sorted({w.split(':')[0] for _, w in c['mechanism']})
		lines.append(json.dumps({
			'id': id, 'title': c['title'], 'statement': c['statement'],
			'quantifier': {'over': c['over'], 'text': c['text']}, 'why_tests_cant': c['why'],
			'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in c['mechanism']], 'observe_at': c['observe'], 'hook_needed': None},
		}))
		count = sum(s.quick for s in p.subs if s.strategy)
		enumerated = [s.name for s in p.subs if s.cases]
		text = '%d generated' % count if count else 'only enumerated'
		if enumerated:
			text += ' and the enumerated ' + ', '.join(enumerated)
		checks.append({
			'property': id,
			'quick_cmd': 'python3-vt run.py %s' % id,
			'thorough_cmd': 'VERIF_TIER=thorough python3-vt run.py %s' % id,
			'technique': c['technique'],
			'level': 'exploration',
			'level_note': (LEVEL_NOTE % {'count': text, 'subs': 'sub-checks ' + ', '.join(s.name for s in p.subs), 'assumptions':
				('Assumes: ' + ' '.join(p.assumptions)) if p.assumptions else ''}).strip(),
		})
	with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
		f.write('\n'.join(lines) + '\n')
	manifest = {
		'version': 1,
		'setup_cmd': 'python3-vt tools/setup.py',
		'checks': checks,
		'not_applicable': [],
		'notes': 'Pure Python: nothing is compiled; every check imports the library from the working tree (never from cached bytecode). No hooks in /repo.',
	}
	with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
		json.dump(manifest, f, indent=1)
		f.write('\n')
	design(modules)
	import jsonschema
	for name, items in (('PROPERTIES', [json.loads(l) for l in lines]), ('MANIFEST', [manifest])):
		path = '/root/.vp/%s.schema.json' % name
		if os.path.exists(path):
			schema = json.load(open(path))
			for item in items:
				jsonschema.validate(item, schema)


if __name__ == '__main__':
	main()
