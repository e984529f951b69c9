"""Weekly, monthly and yearly summaries."""
import datetime

from hypothesis import strategies as st

from checks.c22 import dates_of, many_days, one_day, run
from wlv import summaries
from wlv.core import Prop, Sub


def members(kind, key, days):
	"""Which of the days belong to the period."""
	_, year, month, week, _ = key
	if kind == 'WEEKLY':
		return [d for d in days if d.isocalendar()[:2] == (year, week)]
	return [d for d in days if d.year == year and (kind == 'YEARLY' or d.month == month)]


def check(case, t):
	archive_case, hour, order, duplicate = case
	rows = summaries.rows_of(archive_case)
	dates = dates_of(rows, hour)
	dates = [dates[i % len(dates)] for i in order] + dates
	if not duplicate:
		dates = list(dict.fromkeys(dates))
	stored, found = run(t, archive_case, dates)
	days = {d.date() for d in dates}
	t.eq(set(found), summaries.expected_keys(days), 'summaries')
	daily = {datetime.date(k[1], k[2], k[4]): r for k, r in found.items() if k[0] == 'DAILY'}
	parts_seen = 0
	for key, row in found.items():
		kind = key[0]
		if kind == 'DAILY':
			continue
		own = members(kind, key, days)
		what = '%s summary %s' % (kind.lower(), key[1:])
		parts_seen = max(parts_seen, len(own))
		summaries.compare_statistics(t, row, [r for r in stored if r['timestamp_station'].date() in own], what)
		of_days = [daily[d] for d in own]
		if kind == 'YEARLY':
			months = [r for k, r in found.items() if k[0] == 'MONTHLY' and k[1] == key[1]]
			weeks = [r for k, r in found.items() if k[0] == 'WEEKLY' and k[1] == key[1]]
			summaries.compare_rollup(t, row, months, what)
			summaries.compare_rollup(t, row, of_days, what + ' from its days')
			summaries.compare_run_average(t, row['wind_run_distance_monthly_average'], months, what + ', monthly')
			summaries.compare_run_average(t, row['wind_run_distance_weekly_average'], weeks, what + ', weekly')
		else:
			summaries.compare_rollup(t, row, of_days, what)
			t.check(not row['wind_run_distance_monthly_average'] and not row['wind_run_distance_weekly_average'],
				'%s has weekly or monthly wind run averages', what)
		summaries.compare_run_average(t, row['wind_run_distance_daily_average'], of_days, what + ', daily')
		if kind == 'WEEKLY':
			monday = datetime.datetime.strptime('%d-W%02d-1' % (key[1], key[3]), '%G-W%V-%u').date()
			t.eq((row['week_start'], row['week_end']), (monday, monday + datetime.timedelta(days=6)), 'dates of ' + what)
			if own and (monday.year != (monday + datetime.timedelta(days=6)).year):
				t.label('week across a year end')
		else:
			t.check(row['week_start'] is None and row['week_end'] is None, 'week dates in the %s', what)
	t.nontrivial(parts_seen >= 2)


def check_partial(case, t):
	"""Only some of the days are recalculated: their periods cover all records all the same, and no others are touched."""
	archive_case, chosen, second = case
	rows = summaries.rows_of(archive_case)
	all_days = sorted({r['timestamp_station'].date() for r in rows})
	wanted = {all_days[i % len(all_days)] for i in chosen}
	stored, found = run(t, archive_case, [datetime.datetime.combine(d, datetime.time(second)) for d in sorted(wanted)])
	t.eq(set(found), summaries.expected_keys(wanted), 'summaries')
	daily = {datetime.date(k[1], k[2], k[4]): r for k, r in found.items() if k[0] == 'DAILY'}
	more = False
	for key, row in found.items():
		if key[0] == 'DAILY':
			continue
		own = members(key[0], key, all_days)
		what = '%s summary %s' % (key[0].lower(), key[1:])
		more |= not set(own) <= wanted
		summaries.compare_statistics(t, row, [r for r in stored if r['timestamp_station'].date() in own], what)
		summaries.compare_rollup(t, row, [daily[d] for d in own if d in wanted], what)
	t.nontrivial(more)


YEAR_ENDS = st.one_of(st.integers(0, 7), st.integers(359, 372), st.integers(725, 737))


def strategy(spread, maximum, offsets=None, bases=None):
	return st.tuples(summaries.archives(spread=spread, maximum=maximum, minimum=2, offsets=offsets, bases=bases), st.integers(0, 23),
		st.lists(st.integers(0, 30), max_size=4), st.booleans())


def windy():
	def build(x):
		a, b = x
		shift = 1 + len(b[3]) % 5
		return (a[0], a[1], a[2], list(a[3]) + [(o + 2 + shift, m, v) for o, m, v in b[3]])
	return st.tuples(one_day((5, 10)), one_day((5, 10))).map(build)


def close_winds():
	"""Days whose highest averages differ by fractions of a mile per hour only."""
	def build(x):
		base, days = x
		out = [(3 * k % 7 + 7 * (k // 7), start + 5 * j, [20 + speed, direction, 9, direction, 0, None, None, None])
			for k, (start, winds) in enumerate(days) for j, (speed, direction) in enumerate(winds)]
		return base, 5, summaries.GROUPS[1], out
	wind = st.tuples(st.integers(0, 2), st.integers(0, 3))
	return st.tuples(st.sampled_from(summaries.BASES), st.lists(st.tuples(st.integers(5, 1400), st.lists(wind, min_size=2, max_size=5)), min_size=2, max_size=6)).map(build)


PROPERTY = Prop(
	'C23',
	'Generated archives over days around week, month, ISO-year (of several years) and leap-year boundaries, recalculated for all their dates in any '
	'order with repetitions; every column of each weekly, monthly and yearly summary except extremes\' times is compared with a '
	'reference from the stored records and daily summaries. '
	'With only some days recalculated, their periods cover all records all the same. Non-trivial: a period combines several days, or has days not asked for.',
	[
		Sub('many days', check, cases=lambda: [(many_days(410, 1)[0], 5, [], False), (many_days(60, 41)[0], 5, [7, 3], True)]),
		Sub('near', check, lambda: strategy(9, 12), quick=350),
		Sub('far', check, lambda: strategy(400, 10), quick=150),
		Sub('year ends', check, lambda: strategy(0, 10, YEAR_ENDS, st.integers(2004, 2032).map(lambda y: datetime.date(y, 1, 1))), quick=150),
		Sub('partial', check_partial, lambda: st.tuples(summaries.archives(spread=9, maximum=12, minimum=3),
			st.lists(st.integers(0, 11), min_size=1, max_size=3), st.integers(0, 23)), quick=200),
		Sub('close winds', check, lambda: st.tuples(close_winds(), st.just(0), st.just([]), st.booleans()), quick=100),
		Sub('wind', check, lambda: st.tuples(windy(), st.just(0), st.just([]), st.booleans()), quick=150),
	],
	['The database double stands for MySQL. A wind run average of zero may be stored or absent.'],
)
