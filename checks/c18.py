"""The high 10-minute wind average."""
import datetime
from decimal import Decimal

from hypothesis import strategies as st

from wlv import codec, refs
from wlv.core import Prop, Sub, number

from weatherlink.utils import calculate_10_minute_wind_average as sut

START = datetime.datetime(2015, 6, 14)

SPEED = st.one_of(st.none(), st.integers(0, 3), st.integers(0, 120), st.integers(0, 400).map(lambda n: Decimal(n).scaleb(-1)), st.just(0))
DIRECTION = st.one_of(st.sampled_from(['N', 'S', 'SSW']), st.sampled_from(codec.DIRECTIONS), st.none(), st.integers(0, 3))


def expected(records):
	out = refs.ten_minute_average([(s, d, e, int(c)) for s, d, e, c in records])
	if out is None:
		return None
	average, directions, first, last = out
	return average, directions, first, last


def modes(window):
	known = [d for d in window if d is not None]
	out = set()
	for values in (window, known):
		if values:
			top = max(values.count(v) for v in values)
			out |= {v for v in values if values.count(v) == top}
	return out or {None}


def window_of(records, last):
	minutes = []
	for s, d, e, c in records:
		for i in range(int(c) - 1, -1, -1):
			minutes.append((d, e - datetime.timedelta(minutes=i)))
	k = max(i for i, m in enumerate(minutes) if m[1] == last)
	return [d for d, _ in minutes[k - 9:k + 1]]


def check(case, t):
	form, rows = case
	records, end = [], START
	for speed, direction, covered, gap in rows:
		end = end + datetime.timedelta(minutes=int(covered) + gap)
		records.append((speed, direction, end, covered))
	argument = {'list': list, 'tuple': tuple}[form](records)
	if form == 'tuple':
		argument = tuple(list(r) for r in argument)
	with t.sut('calculate_10_minute_wind_average'):
		result = sut(argument)
	t.check(len(result) == 4, 'the result is %r', result)
	reference = expected(records)
	if reference is None:
		t.check(tuple(result) == (None, ) * 4, 'no 10-minute average exists, got %r', result)
		t.label('none')
		return
	average, directions, first, last = reference
	t.eq(number(result[0]), average, 'highest average')
	t.eq(result[2], first, 'end of the first minute')
	t.eq(result[3], last, 'end of the last minute')
	allowed = modes(window_of(records, last))
	t.check(any(result[1] == a and type(result[1]) is type(a) for a in allowed), 'direction: expected one of %r, got %r', allowed, result[1])
	t.label('%d-minute records' % records[-1][3] if len({r[3] for r in records}) == 1 else 'mixed')
	t.nontrivial(len(records) >= 3)


GAPS = [5, 7, 50, 60, 710, 1430, 1435, 1440, 1441, 2885, 43200, 525600]


@st.composite
def rows(draw):
	kind = draw(st.sampled_from(['one', 'five', 'mixed', 'ten', 'long']))
	covered = {
		'one': st.just(1), 'five': st.just(5), 'ten': st.just(10), 'mixed': st.integers(1, 10),
		'long': st.one_of(st.integers(1, 10), st.sampled_from([11, 15, 30])),
	}[kind]
	if draw(st.booleans()):
		covered = covered.map(Decimal)
	gap = st.sampled_from([0, 0, 0, 0, 5, draw(st.sampled_from(GAPS))]) if draw(st.booleans()) else st.just(0)
	return draw(st.lists(st.tuples(SPEED, DIRECTION, covered, gap), max_size=30 if kind == 'one' else 12))


def strategy():
	return st.tuples(st.sampled_from(['list', 'tuple']), rows())


def check_day(case, t):
	"""A whole day of records whose speeds are a generated pattern."""
	covered, pattern, directions = case
	records = []
	for k in range(1440 // covered):
		speed = pattern[(k * k + k // 7) % len(pattern)]
		records.append((speed, directions[k % len(directions)], START + datetime.timedelta(minutes=covered * (k + 1)), covered))
	rows_ = [(s, d, c, 0) for s, d, _, c in records]
	check(('list', rows_), t)


def check_longer(case, t):
	"""More than a day: any number of records, the maximum anywhere."""
	days, covered, at, length, speed, directions = case
	count = int(days * 1440 / 10) // covered
	at, length = at % count, 1 + length % (20 // covered + 1)
	rows_ = [((speed if at <= k < at + length else k * k % 5), directions[k % len(directions)], covered, 0) for k in range(count)]
	check(('list', rows_), t)


def check_sub_minute(case, t):
	interval, count = case
	records = [(5, 'N', START + datetime.timedelta(seconds=float(interval) * 60 * (k + 1)), interval) for k in range(count)]
	with t.sut('calculate_10_minute_wind_average'):
		result = sut(records)
	t.nontrivial()
	if result[0] is None:
		t.fail('%d records of %s minutes (%s minutes in all) of a steady 5 mph wind have no 10-minute average' % (count, interval, interval * count),
			key='sub-minute')
	t.close(result[0], 5, Decimal('0.001'), 'average of a steady 5 mph wind')


PROPERTY = Prop(
	'C18',
	'Generated lists of wind records (speeds with none and zero, any directions, 1 to 10 minutes each, sometimes mixed, with gaps up to a year, or '
	'longer than 10), and whole days (or up to four) of patterned records; the oracle expands records to minutes and examines every window that '
	'ends where a record ends. Non-trivial: an average exists and there are at least three records.',
	[
		Sub('records', check, strategy, quick=2500),
		Sub('days', check_day, lambda: st.tuples(st.sampled_from([1, 5, 10]), st.lists(SPEED, min_size=1, max_size=40),
			st.lists(DIRECTION, min_size=1, max_size=5)), quick=60),
		Sub('longer', check_longer, lambda: st.tuples(st.integers(11, 40), st.sampled_from([1, 1, 5, 10]), st.one_of(st.integers(0, 6000), st.integers(-30, -1)), st.integers(0, 20),
			st.integers(6, 90), st.lists(DIRECTION, min_size=1, max_size=5)), quick=48, shards=8),
		Sub('sub-minute', check_sub_minute, cases=lambda: [(Decimal(1) / 24, 480), (Decimal('0.5'), 60), (Decimal('0.25'), 100)]),
	],
	['When windows tie, the earliest is the record; when directions tie, any of them.'],
)
