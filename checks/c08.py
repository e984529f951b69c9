"""WeatherLink time stamps."""
import datetime

from hypothesis import strategies as st

from wlv import codec, gen
from wlv.core import Prop, Sub

from weatherlink.models import convert_datetime_to_timestamp, convert_timestamp_to_datetime

FIRST, LAST = datetime.datetime(2000, 1, 1), datetime.datetime(2127, 12, 31, 23, 59)


def when():
	return gen.minute_datetimes(FIRST, LAST)


class OwnDatetime(datetime.datetime):
	"""As date libraries provide them."""


KINDS = {
	'own class': lambda d: OwnDatetime(*d.timetuple()[:6]),
	'aware': lambda d: d.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=-7))),
	'aware UTC': lambda d: d.replace(tzinfo=datetime.timezone.utc),
	'second time': lambda d: d.replace(fold=1),
}


def check_kind(case, t):
	kind, d = case
	with t.sut('conversion'):
		stamp = convert_datetime_to_timestamp(KINDS[kind](d))
	t.eq(stamp, codec.timestamp(d), 'time stamp of %s (%s)' % (d, kind))
	t.nontrivial(d.hour > 0 or d.minute > 0)
	t.label(kind)


def check_one(case, t):
	d, second, microsecond = case
	with t.sut('conversion'):
		stamp = convert_datetime_to_timestamp(d.replace(second=second, microsecond=microsecond))
		back = convert_timestamp_to_datetime(stamp)
		back_from_reference = convert_timestamp_to_datetime(codec.timestamp(d))
	t.eq(stamp, codec.timestamp(d), 'time stamp of %s' % d)
	t.eq(back, d, 'date and time of the time stamp of %s' % d)
	t.eq(back_from_reference, d, 'date and time of %s' % codec.timestamp(d))
	t.check(isinstance(stamp, int), 'the time stamp is %r', stamp)
	t.nontrivial(d.hour > 0 or d.minute > 0)
	t.label('seconds' if second or microsecond else 'whole minute')


def check_order(case, t):
	a, b = case
	with t.sut('conversion'):
		x, y = convert_datetime_to_timestamp(a), convert_datetime_to_timestamp(b)
	t.check((a < b) == (x < y) and (a == b) == (x == y), 'order of %s and %s differs from that of %r and %r', a, b, x, y)
	t.nontrivial(a != b)


def pairs():
	near = st.tuples(when(), st.sampled_from([1, 5, 59, 60, 61, 1439, 1440, 1441, 43200, 525600])).map(
		lambda x: (x[0], min(LAST, x[0] + datetime.timedelta(minutes=x[1]))))
	return st.one_of(near, near.map(lambda p: (p[1], p[0])), st.tuples(when(), when()))


def check_other(case, t):
	with t.sut('convert_datetime_to_timestamp'):
		t.check(convert_datetime_to_timestamp(case) is case or same_number(convert_datetime_to_timestamp(case), case),
			'%r is not passed through: %r', case, convert_datetime_to_timestamp(case))
	t.nontrivial()


def same_number(a, b):
	return type(a) is type(b) and a == b


def days(step):
	def cases():
		out = []
		for d in range(0, (LAST - FIRST).days + 1, step):
			day = FIRST + datetime.timedelta(days=d)
			out.append((day, 0, 0))
			out.append((day.replace(hour=(d * 7) % 24, minute=(d * 13) % 60), 0, 0))
		for m in range(1440):
			out.append((datetime.datetime(2015, 10, 31) + datetime.timedelta(minutes=m), 0, 0))
		return out
	return cases


PROPERTY = Prop(
	'C08',
	'Generated and enumerated minutes between 2000-01-01 and 2127-12-31 (every seventh day quick, every day thorough; every minute '
	'of one day), also as aware or derived datetimes, pairs near and far for order, and values that are not datetimes. Non-trivial: not midnight; the pair differs.',
	[
		Sub('round-trip', check_one, lambda: st.tuples(when(), st.sampled_from([0, 1, 30, 59]), st.sampled_from([0, 999999])), quick=2000),
		Sub('days', check_one, cases=days(7), thorough_cases=days(1)),
		Sub('kinds', check_kind, lambda: st.tuples(st.sampled_from(sorted(KINDS)), when()), quick=400),
		Sub('order', check_order, pairs, quick=2000),
		Sub('pass-through', check_other, lambda: st.one_of(st.integers(0, 2 ** 33), st.none(), st.text(max_size=5)), quick=100),
	],
)
