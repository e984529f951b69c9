"""Daily summaries."""
import datetime

from hypothesis import strategies as st

from wlv import fakedb, summaries
from wlv.core import Prop, Sub
from wlv.summaries import ARCHIVE, SCHEMA


def run(t, archive_case, dates):
	"""Inserts the archive, recalculates for the dates, and returns (stored archive rows, summaries by key)."""
	server = fakedb.FakeServer(SCHEMA)
	for row in summaries.rows_of(archive_case):
		server.insert(ARCHIVE, row)
	before = server.rows(ARCHIVE, 'record_id')
	with fakedb.patched(server):
		e = summaries.exporter(server)
		with t.sut('recalculate_summaries_for_dates'):
			# any iterable of dates, also one that can be read only once
			e.recalculate_summaries_for_dates([dates, tuple(dates), iter(dates), set(dates)][len(before) % 4])
		e.disconnect()
	t.check(server.rows(ARCHIVE, 'record_id') == before, 'the archive records were changed')
	rows = server.rows(summaries.SUMMARY)
	found = {summaries.key_of(r): r for r in rows}
	t.eq(len(found), len(rows), 'number of distinct summaries')
	return before, found


def dates_of(rows, hour):
	"""Any time of the day, down to microseconds (as datetime.now() would give), stands for its date."""
	return [r['timestamp_station'].replace(hour=hour, minute=hour, second=hour, microsecond=hour * 41) for r in rows]


def check(case, t):
	archive_case, hour, extra = case
	rows = summaries.rows_of(archive_case)
	dates = dates_of(rows, hour)
	if extra:
		dates.append(datetime.datetime.combine(archive_case[0] - datetime.timedelta(days=2), datetime.time(hour)))
	stored, found = run(t, archive_case, dates)
	days = {d.date() for d in dates}
	t.eq({k for k in found if k[0] == 'DAILY'}, {k for k in summaries.expected_keys(days) if k[0] == 'DAILY'}, 'daily summaries')
	best = False
	for d in days:
		records = [r for r in stored if r['timestamp_station'].date() == d]
		row = found['DAILY', d.year, d.month, 0, d.day]
		what = 'summary of %s (%d records)' % (d, len(records))
		summaries.compare_statistics(t, row, records, what)
		best |= summaries.compare_daily_extras(t, row, records, what)
		t.check(not any(row[c] for c in summaries.RUN_COLUMNS), '%s: wind run averages are for longer periods', what)
		t.check(row['week_start'] is None and row['week_end'] is None, '%s: week dates in a daily summary', what)
	if best:
		t.label('has a 10-minute average')
	t.nontrivial(len(rows) > len(days))


def one_day(covered=(1, 5, 10, (1, 5), (5, 10, 1))):
	"""Consecutive records of a day or two, with winds."""
	gust = st.one_of(st.sampled_from([0, 9, 19, 20, 20]), st.integers(0, 45), st.none())
	row = st.tuples(st.integers(0, 5), st.integers(0, 3), st.sampled_from([0, 0, 0, 1, 40]), gust, st.integers(0, 3))

	def build(x):
		base, minutes, start, rows = x
		out, minute = [], start
		for k, (speed, direction, gap, high, high_direction) in enumerate(rows):
			own = minutes[k % len(minutes)] if isinstance(minutes, tuple) else minutes
			minute += own * (1 + gap)
			out.append((minute // 1440, minute % 1440, [speed * 7, direction, high, high_direction, speed, None, None, None]))
		return base, minutes, summaries.GROUPS[1], out
	return st.tuples(st.sampled_from(summaries.BASES), st.sampled_from(covered), st.one_of(st.integers(0, 1400), st.just(0), st.integers(1380, 1430)),
		st.lists(row, min_size=2, max_size=24)).map(build)


def many_days(count, step, end=datetime.date(2017, 3, 9)):
	"""A long time at once, as when files are first imported."""
	days = [k * step for k in range(count)]
	return (end - datetime.timedelta(days=days[-1]), 10, summaries.GROUPS[0],
		[(d, (d * 77) % 1440, [d * 13 % 700 + 200, d * 7 % 300, d * 11 % 900] + [0] * 5) for d in days]), 5, False


def full_days():
	"""Each record of a day or two, up to one a minute, with a wind that is strongest at any time of them."""
	def build(x):
		base, minutes, (count, start), peak, width, gust, direction = x
		out, minute = [], start
		for k in range(count // minutes):
			minute += minutes
			near = abs(k - peak * count // minutes // 100) <= width
			out.append((minute // 1440, minute % 1440, [77 + k % 5 if near else 7 * (k % 4), (k // 3 + direction) % 5, gust + 30 if near and k % 2 else k % 30, k % 4,
				k % 9, -k % 450, None, None]))
		return base, minutes, summaries.GROUPS[1], out
	return st.tuples(st.sampled_from(summaries.BASES), st.sampled_from([1, 5, 5, 10, 2]), st.sampled_from([(1440, 0), (1439, -1), (1440, 1000), (2880, -1), (900, 540)]),
		st.one_of(st.integers(0, 99), st.integers(90, 100)), st.integers(0, 12), st.integers(0, 9), st.integers(0, 4)).map(build)


PROPERTY = Prop(
	'C22',
	'Generated archives (a few columns with small, tied, zero, negative and missing values, around month and year ends; consecutive wind '
	'records, up to each minute of two days) in the database double; every column of each daily summary except extremes\' times is compared with a reference '
	'computed from the stored records. Non-trivial: some day has several records.',
	[
		Sub('other years', check, lambda: st.tuples(st.tuples(st.one_of(one_day(), summaries.archives(spread=1, maximum=8)), st.lists(
			st.sampled_from([0, 0, 1, -1, 4]), min_size=1, max_size=12)).map(lambda x: summaries.with_other_years(*x)), st.integers(0, 23), st.just(False)), quick=300),
		Sub('many days', check, cases=lambda: [many_days(410, 1), many_days(130, 9)]),
		Sub('archive', check, lambda: st.tuples(summaries.archives(spread=3), st.integers(0, 23), st.booleans()), quick=500),
		Sub('full days', check, lambda: st.tuples(full_days(), st.just(3), st.just(False)), quick=16),
		Sub('wind', check, lambda: st.tuples(one_day(), st.just(0), st.just(False)), quick=400),
	],
	['The database double stands for MySQL. Averages are compared within the precision of their column.',
		'With equally frequent wind directions any of them is accepted; without wind, none is required.'],
)
