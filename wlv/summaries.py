"""Reference model of daily, weekly, monthly and yearly summaries, and generated archives for it."""
import contextlib
import datetime
from decimal import Decimal
from fractions import Fraction as F

from hypothesis import strategies as st

from wlv import archive, codec, fakedb, refs
from wlv.core import number

ARCHIVE, SUMMARY = 'weather_archive_record', 'weather_calculated_summary'
SCHEMA = fakedb.repository_schema()
ARCHIVE_COLUMNS = {c.name: c for c in SCHEMA[ARCHIVE].columns}
SUMMARY_COLUMNS = {c.name: c for c in SCHEMA[SUMMARY].columns}

MEASURED = [c for c in ARCHIVE_COLUMNS if c not in ('record_id', 'timestamp_weatherlink', 'timestamp_station', 'timestamp_utc',
	'minutes_covered', 'summary_year', 'summary_month', 'summary_day')]

DAY_COLUMNS = ('integrated_heating_degree_days', 'integrated_cooling_degree_days', 'wind_speed_high_10_minute_average',
	'wind_speed_high_10_minute_average_direction', 'wind_speed_high_10_minute_average_start', 'wind_speed_high_10_minute_average_end')
RUN_COLUMNS = ('wind_run_distance_daily_average', 'wind_run_distance_weekly_average', 'wind_run_distance_monthly_average')
KEY = ('summary_type', 'summary_year', 'summary_month', 'summary_week', 'summary_day')
TIMESTAMPS = [c for c in SUMMARY_COLUMNS if c.endswith('_timestamp')]


def statistics():
	"""summary column: (operation, archive column), from what the columns are named and documented to hold."""
	out = {}
	for c in SUMMARY_COLUMNS:
		if c in KEY or c in DAY_COLUMNS or c in RUN_COLUMNS or c in TIMESTAMPS or c in ('summary_id', 'week_start', 'week_end',
				'wind_direction_prevailing', 'wind_speed_high_direction'):
			continue
		if c in ('wind_run_distance_total', 'rain_total', 'evapotranspiration'):
			out[c] = ('sum', c)
		elif c.endswith('_average'):
			out[c] = ('average', c[:-len('_average')])
		elif c.endswith('_low'):
			out[c] = ('lowest', c if c in ARCHIVE_COLUMNS else c[:-len('_low')])
		elif c.endswith('_high'):
			out[c] = ('highest', c if c in ARCHIVE_COLUMNS else c[:-len('_high')])
		else:
			raise AssertionError(c)
	return out


STATISTICS = statistics()
ZERO_HAS_NO_TIME = ('wind_speed_high_timestamp', 'rain_rate_high_timestamp', 'solar_radiation_high_timestamp', 'uv_index_high_timestamp')


def tolerance(column):
	"""Half of the last stored place, and a ten-thousandth for the database's own rounding of averages."""
	c = SUMMARY_COLUMNS[column]
	places = c.args[1] if c.kind == 'decimal' else 0
	return F(1, 2 * 10 ** places) + F(1, 10000)


def compare_statistics(t, row, records, what):
	for column, (operation, source) in STATISTICS.items():
		values = [number(r[source]) for r in records if r[source] is not None]
		if not values:
			t.check(row[column] is None, '%s: %s is %r without any value', what, column, row[column])
		elif operation == 'lowest':
			t.eq(row[column], min(values), '%s: %s' % (what, column))
		elif operation == 'highest':
			t.eq(row[column], max(values), '%s: %s' % (what, column))
		elif operation == 'sum':
			t.eq(row[column], sum(values), '%s: %s' % (what, column))
		else:
			t.close(row[column], sum(values) / len(values), tolerance(column), '%s: %s' % (what, column))
	compare_directions(t, row, records, what)


def modes(values):
	values = [v for v in values if v is not None]
	if not values:
		return {None}
	top = max(values.count(v) for v in values)
	return {v for v in values if values.count(v) == top}


def compare_directions(t, row, records, what):
	speeds = [r['wind_speed_high'] for r in records if r['wind_speed_high'] is not None]
	prevailing = modes([r['wind_speed_direction'] for r in records])
	high = modes([r['wind_speed_high_direction'] for r in records if speeds and r['wind_speed_high'] == max(speeds)])
	if not speeds or not max(speeds):  # calm or unknown: a direction means little
		prevailing, high = prevailing | {None}, high | {None}
	t.one_of(row['wind_direction_prevailing'], prevailing, '%s: prevailing wind direction' % what)
	t.one_of(row['wind_speed_high_direction'], high, '%s: direction of the high wind speed' % what)


def compare_timestamps(t, row, records, what):
	"""Returns how many extremes were found, and how many of them occur more than once."""
	found = ties = 0
	for column in TIMESTAMPS:
		operation, source = STATISTICS[column[:-len('_timestamp')]]
		times = [(number(r[source]), r['timestamp_station']) for r in records if r[source] is not None]
		if not times:
			t.check(row[column] is None, '%s: %s is %s without any value', what, column, row[column])
			continue
		extreme = (min if operation == 'lowest' else max)(v for v, _ in times)
		holders = [when for v, when in times if v == extreme]
		if not extreme and column in ZERO_HAS_NO_TIME:
			t.one_of(row[column], [None, min(holders)], '%s: %s' % (what, column))
		else:
			t.eq(row[column], min(holders), '%s: %s (of %s)' % (what, column, extreme))
			found += 1
			ties += len(holders) > 1
	return found, ties


def compare_daily_extras(t, row, records, what):
	"""Degree days and the 10-minute average of a day. Returns whether there is such an average."""
	temperatures = [number(r['temperature_outside']) for r in records if r['temperature_outside'] is not None]
	if temperatures:
		average = sum(temperatures) / len(temperatures)
		hdd, cdd = refs.degree_days(average)
	else:
		average = hdd = cdd = None
	if average is not None and abs(average - 65) < F(1, 5000):
		pass
	else:
		t.close(row['integrated_heating_degree_days'], hdd, tolerance('integrated_heating_degree_days'), '%s: heating degree days' % what)
		t.close(row['integrated_cooling_degree_days'], cdd, tolerance('integrated_cooling_degree_days'), '%s: cooling degree days' % what)

	records = sorted(records, key=lambda r: r['timestamp_station'])
	best = refs.ten_minute_average([(r['wind_speed'], r['wind_speed_direction'], r['timestamp_station'], r['minutes_covered']) for r in records])
	fields = [row[c] for c in DAY_COLUMNS[2:]]
	if best is None:
		t.check(fields == [None] * 4, '%s: no 10-minute average exists, but the summary has %r', what, fields)
		return False
	average, _, first, last = best
	t.close(fields[0], average, tolerance('wind_speed_high_10_minute_average'), '%s: high 10-minute wind average' % what)
	minutes = []
	for r in records:
		for i in range(r['minutes_covered'] - 1, -1, -1):
			minutes.append((r['wind_speed_direction'], r['timestamp_station'] - datetime.timedelta(minutes=i)))
	directions = set()
	for k in range(9, len(minutes)):  # there are several when records overlap
		if minutes[k][1] == last and minutes[k - 9][1] == first:
			window = [d for d, _ in minutes[k - 9:k + 1]]
			directions |= {v for v in window if window.count(v) == max(window.count(x) for x in window)} | modes(window)
	t.one_of(fields[1], directions, '%s: direction of the 10-minute average' % what)
	t.eq(fields[2], first - datetime.timedelta(minutes=1), '%s: start of the 10-minute average' % what)
	t.eq(fields[3], datetime.timedelta(hours=last.hour, minutes=last.minute), '%s: end of the 10-minute average' % what)
	return True


def compare_rollup(t, row, parts, what):
	"""Degree days and 10-minute average of a longer period from the summaries of its days (or months)."""
	for column in DAY_COLUMNS[:2]:
		values = [number(p[column]) for p in parts if p[column] is not None]
		t.eq(row[column], sum(values) if values else None, '%s: %s' % (what, column))
	quads = [tuple(p[c] for c in DAY_COLUMNS[2:]) for p in parts if p[DAY_COLUMNS[2]] is not None]
	got = tuple(row[c] for c in DAY_COLUMNS[2:])
	if not quads:
		t.check(got == (None, ) * 4, '%s: no 10-minute average exists, but the summary has %r', what, got)
	else:
		top = max(q[0] for q in quads)
		t.check(got in [q for q in quads if q[0] == top], '%s: high 10-minute wind average: expected %r, got %r', what,
			[q for q in quads if q[0] == top], got)


def compare_run_average(t, value, parts, what):
	values = [number(p['wind_run_distance_total']) for p in parts if p['wind_run_distance_total'] is not None]
	if not values or not sum(values):
		t.check(not value, '%s: average wind run is %r without any wind', what, value)
	else:
		t.close(value, sum(values) / len(values), tolerance('wind_run_distance_daily_average'), '%s: average wind run' % what)


# --- generated archives

BASES = [datetime.date(2014, 12, 26), datetime.date(2015, 12, 24), datetime.date(2016, 2, 25), datetime.date(2016, 12, 27),
	datetime.date(2015, 6, 28), datetime.date(2020, 12, 25), datetime.date(2012, 12, 28), datetime.date(2017, 4, 10), datetime.date(2009, 12, 27)]
# A day's summary is the same while the day is not over, or if the station's clock is ahead
BASES += [datetime.date.today() - datetime.timedelta(days=1), datetime.date.today() - datetime.timedelta(days=2), datetime.date(2041, 12, 28)]

VALUE = st.one_of(st.none(), st.integers(-2, 4), st.integers(-400, 1200), st.integers(600, 700), st.just(0))


def value_of(column, n):
	if n is None:
		return None
	c = ARCHIVE_COLUMNS[column]
	if c.kind == 'enum':
		return codec.DIRECTIONS[n % 16]
	if c.unsigned:
		n = abs(n)
	if c.kind == 'decimal':
		return Decimal(n).scaleb(-c.args[1])
	if c.kind == 'tinyint':
		return n % 101
	return n


GROUPS = [
	['temperature_outside', 'temperature_outside_low', 'temperature_outside_high'],
	['wind_speed', 'wind_speed_direction', 'wind_speed_high', 'wind_speed_high_direction', 'wind_run_distance_total'],
	['humidity_outside', 'barometric_pressure'],
	['rain_total', 'rain_rate_high'],
]


def columns():
	return st.one_of(
		st.lists(st.sampled_from(MEASURED), min_size=1, max_size=8, unique=True),
		st.sampled_from(GROUPS),
		st.tuples(st.sampled_from(GROUPS), st.lists(st.sampled_from(MEASURED), min_size=1, max_size=3)).map(
			lambda x: list(dict.fromkeys(list(x[0]) + x[1]))),
	)


def archives(spread=9, maximum=14, minimum=1, covered=None, offsets=None, bases=None, names=None):
	"""(base date, minutes per record, columns, [(day offset, minute, values)])"""
	row = st.tuples(st.integers(0, spread) if offsets is None else offsets, st.one_of(st.integers(0, 1439), st.sampled_from([0, 1439, 720])),
		st.lists(VALUE, min_size=8, max_size=8))
	return st.tuples(st.sampled_from(BASES) if bases is None else bases,
		st.sampled_from([1, 5, 5, 10, 15, (1, 5), (10, 1, 5), (5, 15)]) if covered is None else covered, columns() if names is None else names,
		st.lists(row, min_size=minimum, max_size=maximum, unique_by=lambda r: r[:2]))


def with_other_years(case, years):
	"""With records on the same days of other years."""
	base, covered, names, rows = case
	out = list(rows)
	for k, (offset, minute, values) in enumerate(rows):
		day = base + datetime.timedelta(days=offset)
		if k < len(years) and years[k] and day.day < 29:
			out.append(((day.replace(year=day.year + years[k]) - base).days, (minute + 60 * k) % 1440, values[::-1] if k % 2 else values))
	unique = {}
	for row in out:
		unique.setdefault(row[:2], row)
	return base, covered, names, list(unique.values())


def rows_of(case):
	"""The archive rows of a generated archive, in generated order."""
	base, covered, names, rows = case
	out = []
	for k, (offset, minute, values) in enumerate(rows):
		when = datetime.datetime.combine(base, datetime.time()) + datetime.timedelta(days=offset, minutes=minute)
		row = archive.minimal_row(when, minutes_covered=covered[k % len(covered)] if isinstance(covered, (list, tuple)) else covered)
		for name, n in zip(names, values):
			row[name] = value_of(name, n)
		out.append(row)
	return out


def key_of(row):
	return tuple(row[k] for k in KEY)


def summaries(server):
	return {key_of(r): r for r in server.rows(SUMMARY)}


def exporter(server):
	from weatherlink.exporter.mysql import MySQLExporter
	e = MySQLExporter('user', 'secret', 'weather')
	e.connect()
	return e


LASTING = st.sampled_from([0, 0, 1, 2])


@contextlib.contextmanager
def using(server):
	"""
	An exporter for one use of the server. Which depends on server.lasting: a new one (0), the one of the last use, connected again
	(1), or the one of the last use, still connected (2).
	"""
	from weatherlink.exporter.mysql import MySQLExporter
	with fakedb.patched(server):
		if not server.lasting or server.exporter is None:
			server.exporter, server.connected = MySQLExporter('user', 'secret', 'weather'), False
		e = server.exporter
		if not server.connected:
			e.connect()
			server.connected = True
		try:
			yield e
		except BaseException:
			server.connected = False
			try:
				e.disconnect()
			except Exception:
				pass
			raise
		if server.lasting < 2:
			server.connected = False
			e.disconnect()


def expected_keys(days):
	out = set()
	for d in days:
		week_year, week, _ = d.isocalendar()
		out |= {('DAILY', d.year, d.month, 0, d.day), ('WEEKLY', week_year, 0, week, 0), ('MONTHLY', d.year, d.month, 0, 0),
			('YEARLY', d.year, 0, 0, 0)}
	return out
