"""When each extreme of a summary was recorded."""
import datetime

from hypothesis import strategies as st

from checks.c22 import dates_of, full_days, many_days, run
from checks.c23 import members
from wlv import summaries
from wlv.core import Prop, Sub

SOURCES = sorted({summaries.STATISTICS[c[:-len('_timestamp')]][1] for c in summaries.TIMESTAMPS})


def check(case, t):
	archive_case, hour = case
	rows = summaries.rows_of(archive_case)
	dates = dates_of(rows, hour)
	stored, found = run(t, archive_case, dates)
	days = {d.date() for d in dates}
	total = ties = 0
	for key, row in found.items():
		own = [datetime.date(key[1], key[2], key[4])] if key[0] == 'DAILY' else members(key[0], key, days)
		records = [r for r in stored if r['timestamp_station'].date() in own]
		a, b = summaries.compare_timestamps(t, row, records, '%s summary %s' % (key[0].lower(), key[1:]))
		total += a
		ties += b
	t.label('has ties' if ties else 'no ties')
	t.nontrivial(total >= 4)


def archives(spread, maximum):
	value = st.one_of(st.integers(-2, 2), st.integers(-2, 2), st.integers(-400, 1200), st.none())
	row = st.tuples(st.integers(0, spread), st.one_of(st.integers(0, 1439), st.sampled_from([0, 1439])), st.lists(value, min_size=8, max_size=8))
	return st.tuples(
		st.tuples(st.sampled_from(summaries.BASES), st.sampled_from([5, (5, 1), (10, 5, 1)]), st.lists(st.sampled_from(SOURCES), min_size=2, max_size=8, unique=True),
			st.lists(row, min_size=2, max_size=maximum, unique_by=lambda r: r[:2])),
		st.integers(0, 23),
	)


PROPERTY = Prop(
	'C24',
	'Generated archives whose values are mostly -2 to 2, so that extremes are tied, zero and negative, over days around period '
	'boundaries, full days of records and more than a year of days; each of the twenty extreme times of every daily, weekly, monthly and yearly summary must be the earliest station '
	'time at which a record of the period holds the extreme. Non-trivial: at least four extremes exist.',
	[
		Sub('near', check, lambda: archives(8, 14), quick=400),
		Sub('day', check, lambda: archives(0, 10), quick=200),
		Sub('full days', check, lambda: st.tuples(full_days(), st.just(3)), quick=12),
		Sub('many days', check, cases=lambda: [(many_days(410, 1)[0], 5), (many_days(130, 9)[0], 5)]),
		Sub('far', check, lambda: archives(400, 8), quick=100),
	],
	['A high of zero wind, rain, sun or UV may have no time.'],
)
