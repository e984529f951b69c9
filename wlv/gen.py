"""Hypothesis strategies shared by the checks. Generated cases are plain values."""
import datetime
from decimal import Decimal

from hypothesis import strategies as st

from wlv import codec


def raw_int(size, signed, dash, low=None, high=None):
	"""A stored integer of the field: uniform, plausible small ones, boundaries, and the no-data marker."""
	lo = -(1 << (8 * size - 1)) if signed else 0
	hi = (1 << (8 * size - (1 if signed else 0))) - 1
	lo = lo if low is None else low
	hi = hi if high is None else high
	special = {lo, hi, lo + 1, hi - 1, 0, 1, 10, 100, 255, 256, 254}
	if signed:
		special |= {-1, -10}
	if dash is not None:
		special |= {dash, dash + 1, dash - 1, -dash}
	special = sorted(x for x in special if lo <= x <= hi)
	parts = [st.integers(lo, hi), st.sampled_from(special)]
	if size == 2:
		parts.insert(0, st.integers(max(lo, -400), min(hi, 1200)))
	if dash is not None:
		parts.append(st.just(dash))
	return st.one_of(*parts)


def raw_fields(fields):
	return {f[0]: raw_int(f[2], f[3], f[5]) for f in fields}


def direction_code():
	return st.one_of(st.integers(0, 15), st.just(255))


junk = st.integers(0, 10 ** 6)


def wlk_record(minutes_past_midnight=None):
	d = raw_fields(codec.WLK_FIELDS)
	d.update({
		'minutes_covered': st.one_of(st.sampled_from([1, 5, 10, 15, 30, 60, 120]), st.integers(1, 127)),
		'minutes_past_midnight': minutes_past_midnight or st.one_of(st.integers(0, 1440), st.sampled_from([0, 1, 1439, 1440])),
		'rain_code': st.sampled_from(sorted(codec.RAIN_DATABASE)),
		'rain_clicks': st.one_of(st.integers(0, 40), st.integers(0, 0x0FFF), st.just(0x0FFF)),
		'rain_rate_clicks': st.one_of(st.integers(0, 400), st.integers(0, 32767)),
		'wind_direction_prevailing': direction_code(),
		'wind_direction_speed_high': direction_code(),
		'junk': junk,
	})
	return st.fixed_dictionaries(d)


def summary():
	d = raw_fields(codec.SUMMARY_FIELDS)
	d['wind_speed_high_direction'] = direction_code()
	d['wind_speed_high_10_minute_average_direction'] = direction_code()
	d['junk'] = junk
	return st.fixed_dictionaries(d)


def minute_datetimes(first=datetime.datetime(2000, 1, 1), last=datetime.datetime(2063, 12, 31, 23, 59)):
	span = int((last - first).total_seconds() // 60)
	boundary = [datetime.datetime(y, m, d, h, mi) for (y, m, d) in
		((2000, 1, 1), (2000, 2, 29), (2015, 12, 31), (2016, 1, 1), (2016, 2, 29), (2016, 12, 31), (2027, 10, 31), (2031, 12, 31), (2032, 1, 1))
		for (h, mi) in ((0, 0), (23, 59), (12, 0))]
	boundary = [b for b in boundary if first <= b <= last]
	return st.one_of(
		st.integers(0, span).map(lambda m: first + datetime.timedelta(minutes=m)),
		st.sampled_from(boundary),
	)


def download_record(dates=None):
	d = raw_fields(codec.DOWNLOAD_FIELDS)
	d.update({
		'rain_clicks': st.one_of(st.integers(0, 40), st.integers(0, 65535)),
		'rain_rate_clicks': st.one_of(st.integers(0, 400), st.integers(0, 65535)),
		'wind_direction_prevailing': direction_code(),
		'wind_direction_speed_high': direction_code(),
		'junk': junk,
		'when': dates or minute_datetimes(),
	})

	def stamp(r):
		r = dict(r)
		r['date_stamp'], r['time_stamp'] = codec.date_stamps(r.pop('when'))
		return r
	return st.fixed_dictionaries(d).map(stamp)


def loop2_record():
	d = raw_fields(codec.LOOP2_FIELDS)
	d['minute_in_hour'] = st.integers(0, 60)
	degrees = st.one_of(st.integers(0, 360), st.sampled_from([0, 1, 360, 361, 400, 65535]))
	d['wind_direction_degrees'] = degrees
	d['wind_speed_10_minute_gust_direction_degrees'] = degrees
	d['barometric_trend'] = st.one_of(st.sampled_from([-60, -20, 0, 20, 60, 80]), st.integers(-128, 127))
	d['junk'] = junk
	return st.fixed_dictionaries(d)


def decimals(low, high, places=1):
	scale = 10 ** places
	return st.integers(int(low * scale), int(high * scale)).map(lambda n: Decimal(n).scaleb(-places))


def months():
	return st.tuples(st.integers(2000, 2063), st.integers(1, 12))


def month_length(year, month):
	first = datetime.date(year, month, 1)
	return ((first.replace(day=28) + datetime.timedelta(days=4)).replace(day=1) - first).days
