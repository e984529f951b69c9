"""LOOP2 packets."""
import io

from hypothesis import strategies as st

from checks.c02 import field_values, neutral
from wlv import codec, gen
from wlv.core import Prop, Sub

from weatherlink.models import LoopRecord

COMPASS = (('wind_direction_degrees', 'wind_direction'),
	('wind_speed_10_minute_gust_direction_degrees', 'wind_speed_10_minute_gust_direction'))


def nearest(degrees):
	"""The compass points a direction in degrees may be called (half a point is 11.25 degrees; whole degrees)."""
	if not 1 <= degrees <= 360:
		return (None, )
	out = []
	for k, name in enumerate(codec.DIRECTIONS):
		d = abs((degrees - 22.5 * k + 180) % 360 - 180)
		if d <= 11.5:
			out.append(name)
	return tuple(out)


def compare(t, record, raw, what):
	codec.compare(t, record, codec.expect_loop2(raw), what)
	for source, name in COMPASS:
		value = record[name]
		t.one_of(getattr(value, 'name', value), nearest(raw[source]), '%s: %s for %d degrees' % (what, name, raw[source]))


def check(case, t):
	handle = io.BytesIO(b''.join(codec.encode_loop2(r) for r in case) + b'LOO')
	for k, raw in enumerate(case):
		with t.sut('load_loop_2_from_connection'):
			record = LoopRecord.load_loop_2_from_connection(handle)
		t.eq(handle.tell(), (k + 1) * codec.LOOP2_LENGTH, 'bytes read')
		compare(t, record, raw, 'packet %d' % k)
	dashes = sum(1 for f in codec.LOOP2_FIELDS if f[5] is not None and case[0][f[0]] == f[5])
	t.label('%d dashes' % min(dashes, 6))
	if any(r.get('crc_error') for r in case):
		t.label('wrong CRC')
	t.nontrivial(0 < dashes < len(codec.LOOP2_FIELDS))


def strategy():
	packet = st.tuples(gen.loop2_record(), st.sampled_from([0, 0, 0, 1, 0x8000, 0x1234])).map(lambda x: dict(x[0], crc_error=x[1]))
	return st.lists(packet, min_size=1, max_size=2)


def each_value(step):
	def cases():
		extra = dict(barometric_trend=20, minute_in_hour=33, wind_direction_degrees=90,
			wind_speed_10_minute_gust_direction_degrees=271, junk=9)
		out = []
		for field in codec.LOOP2_FIELDS:
			for v in field_values(field, step):
				if field[0] == 'minute_in_hour' and v > 60:
					continue
				out.append([neutral(codec.LOOP2_FIELDS, **dict(extra, **{field[0]: v}))])
		for trend in range(-128, 128):
			out.append([neutral(codec.LOOP2_FIELDS, **dict(extra, barometric_trend=trend))])
		for source, _ in COMPASS:
			for degrees in range(0, 400):
				out.append([neutral(codec.LOOP2_FIELDS, **dict(extra, **{source: degrees}))])
		return out
	return cases


def check_each(case, t):
	check(case, t)
	t.nontrivial()


def check_flip(case, t):
	"""A damaged byte is either rejected or shows in crc_match."""
	raw, position, xor = case
	data = bytearray(codec.encode_loop2(raw))
	data[position] ^= xor
	try:
		record = LoopRecord.load_loop_2_from_connection(io.BytesIO(bytes(data)))
	except Exception:
		t.label('rejected')
	else:
		t.label('accepted with crc_match False')
		t.check(record['crc_match'] is False, 'byte %d was changed by 0x%02x, but crc_match is %r', position, xor, record['crc_match'])
	t.nontrivial()


def check_swapped(case, t):
	"""Neighboring bytes that changed places (the last two are the checksum) show in crc_match."""
	raw, position = case
	data = bytearray(codec.encode_loop2(raw))
	if data[position] == data[position + 1]:
		return
	data[position], data[position + 1] = data[position + 1], data[position]
	try:
		record = LoopRecord.load_loop_2_from_connection(io.BytesIO(bytes(data)))
	except Exception:
		t.label('rejected')
	else:
		t.check(record['crc_match'] is False, 'bytes %d and %d were swapped, but crc_match is %r', position, position + 1, record['crc_match'])
	t.nontrivial()


PROPERTY = Prop(
	'C06',
	'99-byte LOOP2 packets encoded by an independent byte-offset encoder from generated stored values, with right and wrong '
	'CRCs, read one after another. Non-trivial: some but not all fields of the first packet hold the no-data value; in the '
	'per-field sweep and for damaged packets every case.',
	[
		Sub('packets', check, strategy, quick=1200),
		Sub('each-field', check_each, cases=each_value(1999), thorough_cases=each_value(61)),
		Sub('damaged', check_flip, lambda: st.tuples(gen.loop2_record(), st.integers(0, 98), st.integers(1, 255)), quick=500),
		Sub('swapped', check_swapped, lambda: st.tuples(gen.loop2_record(), st.one_of(st.just(97), st.integers(0, 97))), quick=200),
	],
	['A rain amount for zero clicks may be 0 or no data; the same field reports zero clicks.'],
)
