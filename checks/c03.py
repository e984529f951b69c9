"""Daily summaries of .wlk files."""
import io

from hypothesis import strategies as st

from checks.c02 import dates, field_values, neutral
from wlv import codec, gen
from wlv.core import Prop, Sub

from weatherlink.models import DailySummary


def check(case, t):
	raw, (year, month, day) = case
	handle = io.BytesIO(codec.encode_summary(raw) + b'\2' * 100)
	with t.sut('load_from_wlk'):
		summary = DailySummary.load_from_wlk(handle, year, month, day)
	t.eq(handle.tell(), codec.SUMMARY_LENGTH, 'bytes read')
	dashes = sum(1 for f in codec.SUMMARY_FIELDS if f[5] is not None and raw[f[0]] == f[5])
	t.label('%d dashes' % min(dashes, 8))
	t.nontrivial(0 < dashes < len(codec.SUMMARY_FIELDS))
	codec.compare(t, summary, codec.expect_summary(raw, year, month, day), 'summary')


def strategy():
	return st.tuples(gen.summary(), dates())


def each_value(step):
	def cases():
		extra = dict(wind_speed_high_direction=3, wind_speed_high_10_minute_average_direction=9, junk=5)
		out = []
		for field in codec.SUMMARY_FIELDS:
			for v in field_values(field, step):
				out.append((neutral(codec.SUMMARY_FIELDS, **dict(extra, **{field[0]: v})), (2015, 6, 14)))
		for name, _ in codec.SUMMARY_DIRECTIONS:
			for v in list(range(16)) + [255]:
				out.append((neutral(codec.SUMMARY_FIELDS, **dict(extra, **{name: v})), (2015, 6, 14)))
		return out
	return cases


def check_each(case, t):
	check(case, t)
	t.nontrivial()


PROPERTY = Prop(
	'C03',
	'176-byte daily summaries encoded by an independent byte-offset encoder from generated stored values. Non-trivial: some but '
	'not all fields hold the no-data value; in the per-field sweep every case.',
	[
		Sub('summaries', check, strategy, quick=1000),
		Sub('each-field', check_each, cases=each_value(1999), thorough_cases=each_value(61)),
	],
	['A stored 255 tenths in a two-byte humidity field may be read as 25.5 or as no data.'],
)
