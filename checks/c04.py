"""Archive records of web downloads."""
import io

from hypothesis import strategies as st

from checks.c02 import field_values, neutral
from wlv import codec, gen
from wlv.core import Prop, Sub

from weatherlink.models import ArchiveIntervalRecord


def check(case, t):
	raws, minutes = case
	handle = io.BytesIO(b''.join(codec.encode_download_record(r) for r in raws) + b'\1' * 60)
	for k, raw in enumerate(raws):
		with t.sut('load_from_download'):
			record = ArchiveIntervalRecord.load_from_download(handle, minutes)
		t.eq(handle.tell(), (k + 1) * codec.DOWNLOAD_LENGTH, 'bytes read')
		t.check(record is not None, 'record %d was ignored', k)
		codec.compare(t, record, codec.expect_download_record(raw, minutes), 'record %d' % k)
	dashes = sum(1 for f in codec.DOWNLOAD_FIELDS if f[5] is not None and raws[0][f[0]] == f[5])
	t.label('%d dashes' % min(dashes, 5), '%d records' % len(raws))
	t.nontrivial(0 < dashes < len(codec.DOWNLOAD_FIELDS))


def strategy():
	return st.tuples(st.lists(gen.download_record(), min_size=1, max_size=2), st.sampled_from([1, 5, 10, 15, 30, 60, 120]))


def each_value(step):
	def cases():
		import datetime
		ds, ts = codec.date_stamps(datetime.datetime(2015, 6, 14, 13, 45))
		extra = dict(rain_clicks=3, rain_rate_clicks=36, wind_direction_prevailing=4, wind_direction_speed_high=11, junk=3,
			date_stamp=ds, time_stamp=ts)

		def one(**changes):
			return ([neutral(codec.DOWNLOAD_FIELDS, **dict(extra, **changes))], 5)
		out = []
		for field in codec.DOWNLOAD_FIELDS:
			out.extend(one(**{field[0]: v}) for v in field_values(field, step))
		for name, _ in codec.DOWNLOAD_DIRECTIONS:
			out.extend(one(**{name: v}) for v in list(range(16)) + [255])
		for clicks in field_values(('', 0, 2, False, 1, None), step):
			out.append(one(rain_clicks=clicks))
			out.append(one(rain_rate_clicks=clicks))
		start = datetime.datetime(2015, 12, 31)
		for m in range(0, 1440, 1 if step < 100 else 11):
			ds, ts = codec.date_stamps(start + datetime.timedelta(minutes=m))
			out.append(one(date_stamp=ds, time_stamp=ts))
		for d in range(0, 366 * 64, 1 if step < 100 else 53):
			ds, ts = codec.date_stamps(datetime.datetime(2000, 1, 1) + datetime.timedelta(days=d))
			out.append(one(date_stamp=ds, time_stamp=ts))
		return out
	return cases


def check_each(case, t):
	check(case, t)
	t.nontrivial()


def check_unused(case, t):
	junk, time_stamp = case
	data = bytearray(codec.filler(codec.DOWNLOAD_LENGTH, junk))
	data[0:4] = bytes([0, 0, time_stamp & 255, time_stamp >> 8])
	handle = io.BytesIO(bytes(data) + b'\1' * 60)
	with t.sut('load_from_download'):
		record = ArchiveIntervalRecord.load_from_download(handle, 5)
	t.check(not record, 'an unused record slot (date stamp 0) was returned as %r', record)
	t.nontrivial()


PROPERTY = Prop(
	'C04',
	'52-byte download records encoded by an independent byte-offset encoder from generated stored values and dates 2000-2063, '
	'read one after another from one stream. Non-trivial: some but not all fields of the first record hold the no-data value; in '
	'the per-field sweep and for unused slots every case.',
	[
		Sub('records', check, strategy, quick=1200),
		Sub('each-field', check_each, cases=each_value(1499), thorough_cases=each_value(47)),
		Sub('unused-slots', check_unused, lambda: st.tuples(st.integers(0, 10 ** 6), st.integers(0, 65535)), quick=100),
	],
)
