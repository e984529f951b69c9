"""Rain events."""
import datetime
from decimal import Decimal
from fractions import Fraction as F

from hypothesis import strategies as st

from wlv import archive, fakedb, summaries
from wlv.core import Prop, Sub, number

SCHEMA = fakedb.repository_schema()
START = datetime.datetime(2016, 12, 30, 20, 0)
THREE_HOURS = datetime.timedelta(hours=3)


def rows_of(case):
	"""[(minutes since the previous record, hundredths of inches (or inches as a decimal), hundredths of inches per hour)] as archive rows."""
	out, when = [], START
	for gap, rain, rate in case:
		when = when + datetime.timedelta(minutes=gap)
		out.append(archive.minimal_row(when, rain_total=rain if isinstance(rain, Decimal) else Decimal(rain).scaleb(-2), rain_rate_high=Decimal(rate).scaleb(-2)))
	return out


def reference(rows):
	"""Events of rows in order of time: dicts with start, end (None: ongoing), total, mean, high, high_at."""
	events = []
	for r in rows:
		if not r['rain_total']:
			continue
		when = r['timestamp_station']
		if not events or when - events[-1]['last'] > THREE_HOURS:
			events.append({'start': when, 'records': [], 'last': None})
		events[-1]['records'].append(r)
		events[-1]['last'] = when
	for e in events:
		rates = [number(r['rain_rate_high']) for r in e['records']]
		e['total'] = sum(number(r['rain_total']) for r in e['records'])
		e['mean'] = sum(rates) / len(rates)
		e['high'] = max(rates)
		e['high_at'] = [r['timestamp_station'] for r, x in zip(e['records'], rates) if x == e['high']][0]
		e['end'] = e['last'] if rows[-1]['timestamp_station'] - e['last'] >= THREE_HOURS else None
	return events


def compare(t, server, events, what):
	got = server.rows('weather_rain_event', 'timestamp_start')
	t.eq([r['timestamp_start'] for r in got], [e['start'] for e in events], '%s: starts of the events' % what)
	for r, e in zip(got, events):
		name = '%s: event that starts at %s' % (what, e['start'])
		t.eq(r['timestamp_end'], e['end'], name + ': end')
		t.eq(r['rain_total'], e['total'], name + ': total')
		t.eq(r['rain_rate_high'], e['high'], name + ': highest rate')
		t.eq(r['timestamp_rain_rate_high'], e['high_at'], name + ': time of the highest rate')
		t.close(r['rain_rate_average'], e['mean'], F(1, 200), name + ': average rate')


def find(server):
	with summaries.using(server) as e:
		return e.find_new_rain_events()


def check(case, t):
	server = fakedb.FakeServer(SCHEMA, len(case) % 3)
	rows = rows_of(case)
	for row in rows:
		server.insert('weather_archive_record', row)
	before = server.rows('weather_archive_record')
	with t.sut('find_new_rain_events'):
		result = find(server)
	events = reference(rows)
	compare(t, server, events, 'first search')
	ongoing = sum(e['end'] is None for e in events)
	t.eq(tuple(result), (len(events) - ongoing, ongoing), 'numbers of ended and ongoing events')
	with t.sut('find_new_rain_events'):
		result = find(server)
	compare(t, server, events, 'second search')
	t.eq(tuple(result), (0, ongoing), 'numbers of new events in a second search')
	t.check(server.rows('weather_archive_record') == before, 'the archive records were changed')
	t.label('%d events' % min(len(events), 4), 'ongoing' if ongoing else 'all ended')
	t.nontrivial(any(len(e['records']) >= 2 for e in events))


GAP = st.one_of(st.sampled_from([5, 30, 60]), st.sampled_from([175, 179, 180, 181, 185]), st.integers(1, 400),
	st.sampled_from([1439, 1440, 1445, 1500, 1620, 1621, 2880, 4400]))
# Metric collectors count tenths of millimeters, so amounts may be any thousandths of inches
RAIN = st.one_of(st.just(0), st.integers(1, 3), st.integers(1, 300), st.integers(100, 300), st.integers(1, 300), st.sampled_from([Decimal('0.004'), Decimal('0.008'), Decimal('0.001'), Decimal('0.039')]),
	st.integers(1, 999).map(lambda n: Decimal(n).scaleb(-3)))
RATE = st.one_of(st.integers(0, 3), st.integers(0, 2000))


def records(maximum=25, minimum=0):
	return st.lists(st.tuples(GAP, RAIN, RATE), min_size=minimum, max_size=maximum)


def check_long(case, t):
	"""Many records, with long events."""
	count, gap, pattern, dry_after, tail = case
	rows = []
	for k in range(count):
		rain, rate = pattern[(k * k + k // 5) % len(pattern)]
		rows.append((gap, rain, (rate + k) % 900 if rain else 0))
	if dry_after:
		rows.extend((gap, 0, 0) for _ in range(200 // gap + 1))
	rows.extend(tail)
	check(rows, t)


PROPERTY = Prop(
	'C26',
	'Generated histories of rain and dry records with gaps at and around three hours, and long ones of up to 1,900 records; the events '
	'are compared with a reference segmentation (start, end, total, rates, time of the highest rate), and a second search must '
	'change nothing. Non-trivial: an event of at least two records.',
	[
		Sub('history', check, records, quick=900),
		Sub('many events', check, lambda: st.tuples(st.one_of(st.integers(20, 150), st.integers(150, 600)), st.lists(
			st.tuples(st.integers(181, 400), RAIN, RATE), min_size=1, max_size=5)).map(lambda x: [x[1][k % len(x[1])] for k in range(x[0])]),
			quick=12, thorough=200, shards=4),
		Sub('long', check_long, lambda: st.tuples(st.one_of(st.integers(1300, 1900), st.integers(50, 400), st.integers(1438, 1443)), st.sampled_from([1, 1, 5]),
			st.lists(st.tuples(RAIN, RATE), min_size=1, max_size=6), st.booleans(), records(4)), quick=40, thorough=800, shards=8),
	],
	['The database double stands for MySQL. Every record has a rain amount and a rain rate, as all imported and downloaded ones do.'],
)
