"""Archive records of .wlk files."""
import io

from hypothesis import strategies as st

from wlv import codec, gen
from wlv.core import Prop, Sub

from weatherlink.models import ArchiveIntervalRecord


def dates():
	return st.tuples(gen.months(), st.integers(1, 31)).map(lambda x: (x[0][0], x[0][1], min(x[1], gen.month_length(*x[0]))))


def check(case, t):
	raw, (year, month, day) = case
	data = codec.encode_wlk_record(raw)
	handle = io.BytesIO(data + b'\1' * 100)
	with t.sut('load_from_wlk'):
		record = ArchiveIntervalRecord.load_from_wlk(handle, year, month, day)
	t.eq(handle.tell(), codec.WLK_LENGTH, 'bytes read')
	expected = codec.expect_wlk_record(raw, year, month, day)
	dashes = sum(1 for f in codec.WLK_FIELDS if f[5] is not None and raw[f[0]] == f[5])
	t.label('%d dashes' % min(dashes, 5))
	t.nontrivial(0 < dashes < len(codec.WLK_FIELDS) and (raw['rain_clicks'] or raw['rain_rate_clicks']))
	codec.compare(t, record, expected, 'record')


def strategy():
	return st.tuples(gen.wlk_record(), dates())


def neutral(fields, **extra):
	raw = {f[0]: 321 if f[2] == 2 else 77 for f in fields}
	raw.update(extra)
	return raw


WLK_NEUTRAL = dict(minutes_covered=5, minutes_past_midnight=605, rain_code=0x1000, rain_clicks=3, rain_rate_clicks=36,
	wind_direction_prevailing=4, wind_direction_speed_high=11, junk=3)


def field_values(field, step):
	name, _, size, signed, _, dash = field
	lo = -(1 << (8 * size - 1)) if signed else 0
	hi = (1 << (8 * size - (1 if signed else 0))) - 1
	if size == 1:
		return list(range(lo, hi + 1))
	special = {lo, lo + 1, hi, hi - 1, 0, 1, -1, 254, 255, 256, 32767, -32768, 32768, 65535, 127, 128, 129}
	if dash is not None:
		special |= {dash - 1, dash, dash + 1}
	special |= set(range(lo, hi + 1, step))
	return sorted(v for v in special if lo <= v <= hi)


def each_value(step):
	def cases():
		out = []
		for field in codec.WLK_FIELDS:
			for v in field_values(field, step):
				out.append((neutral(codec.WLK_FIELDS, **dict(WLK_NEUTRAL, **{field[0]: v})), (2015, 6, 14)))
		for name, _ in codec.WLK_DIRECTIONS:
			for v in list(range(16)) + [255]:
				out.append((neutral(codec.WLK_FIELDS, **dict(WLK_NEUTRAL, **{name: v})), (2015, 6, 14)))
		for code in codec.RAIN_DATABASE:
			for clicks in sorted({0, 1, 2, 0x0FFE, 0x0FFF} | set(range(0, 4096, max(1, step // 16)))):
				out.append((neutral(codec.WLK_FIELDS, **dict(WLK_NEUTRAL, rain_code=code, rain_clicks=clicks, rain_rate_clicks=clicks * 7)), (2015, 6, 14)))
		for minutes in range(0, 1441, 1 if step < 100 else 7):
			out.append((neutral(codec.WLK_FIELDS, **dict(WLK_NEUTRAL, minutes_past_midnight=minutes)), (2015, 12, 31)))
		for minutes in range(1, 128):
			out.append((neutral(codec.WLK_FIELDS, **dict(WLK_NEUTRAL, minutes_covered=minutes)), (2016, 2, 29)))
		return out
	return cases


def check_each(case, t):
	check(case, t)
	t.nontrivial()


PROPERTY = Prop(
	'C02',
	'88-byte .wlk archive records encoded by an independent byte-offset encoder from generated stored values (uniform, plausible, '
	'boundary and no-data values; junk in ignored bytes) on generated dates. Non-trivial: some but not all fields hold the '
	'no-data value and there is rain; in the per-field sweep every case.',
	[
		Sub('records', check, strategy, quick=1500),
		Sub('each-field', check_each, cases=each_value(997), thorough_cases=each_value(31)),
	],
	['A stored 255 tenths in a two-byte humidity or wind speed field may be read as 25.5 or as no data.'],
)
