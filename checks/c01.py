"""Importing a .wlk file: structure."""
import contextlib
import os
import shutil
import tempfile

from hypothesis import strategies as st

from wlv import codec, gen
from wlv.core import Prop, Sub

from weatherlink.importer import Importer


def plain_record(tag, minutes, junk):
	raw = {f[0]: 1 + (tag * 7 + i) % 200 for i, f in enumerate(codec.WLK_FIELDS)}
	raw.update({
		'temperature_outside': tag % 30000, 'minutes_covered': 1, 'minutes_past_midnight': minutes, 'rain_code': 0x1000,
		'rain_clicks': tag % 4096, 'rain_rate_clicks': tag % 300, 'wind_direction_prevailing': tag % 16,
		'wind_direction_speed_high': (tag * 3) % 16, 'junk': junk + tag,
	})
	return raw


def plain_summary(tag, junk):
	raw = {f[0]: 1 + (tag * 5 + i) % 200 for i, f in enumerate(codec.SUMMARY_FIELDS)}
	raw.update({'temperature_outside_high': 1000 + tag, 'wind_speed_high_direction': tag % 16,
		'wind_speed_high_10_minute_average_direction': (tag + 5) % 16, 'junk': junk})
	return raw


def build(year, month, days, version, total, unused, junk):
	"""days: {day: (summary raw, [record raws])}; the file lists the days' data in order, as WeatherLink writes it."""
	indexes, body, position = [tuple(unused)], b'', 0
	for day in range(1, 32):
		if day in days:
			summary, records = days[day]
			indexes.append((len(records) + 2, position))
			body += codec.encode_summary(summary) + b''.join(codec.encode_wlk_record(r) for r in records)
			position += len(records) + 2
		else:
			indexes.append((0, position if junk % 2 else 0))
	return codec.encode_header(version, total, indexes) + body, indexes


NOBODY = 65534


@contextlib.contextmanager
def reader(folder, path):
	"""As a user who may read the file, but not write it."""
	for d, _, _ in os.walk(folder):
		os.chmod(d, 0o555)
	os.chmod(path, 0o444)
	switched = False
	if os.geteuid() == 0:
		try:
			os.seteuid(NOBODY)
			switched = True
			open(path, 'rb').close()
		except OSError:  # then the file itself, or changing the user, is out of reach
			if switched:
				os.seteuid(0)
			switched = False
	try:
		yield
	finally:
		if switched:
			os.seteuid(0)
		for d, _, _ in os.walk(folder):
			os.chmod(d, 0o755)


def check_file(case, days, t):
	year, month = case['month']
	data, indexes = build(year, month, days, case['version'], case['total'], case['unused'], case['junk'])
	folder = tempfile.mkdtemp(prefix='wlv')
	try:
		sub = os.path.join(folder, case['folder']) if case['folder'] else folder
		os.makedirs(sub, exist_ok=True)
		path = os.path.join(sub, '%s%04d-%02d.wlk' % (case['prefix'], year, month))
		with open(path, 'wb') as f:
			f.write(data)
		with t.sut('Importer'):
			importer = Importer(path)
			for _ in range(2 if case['twice'] else 1):
				importer.import_data()
			if case['junk'] % 4 == 0:
				with reader(folder, path):
					importer.import_data()
		with open(path, 'rb') as f:
			t.check(f.read() == data, 'importing changed the file')
	finally:
		shutil.rmtree(folder)

	header = importer.header
	t.check(bytes(header.version_code).ljust(16, b'\0') == case['version'][:16].ljust(16, b'\0'), 'header version code is %r', header.version_code)
	t.eq(header.record_count, case['total'], 'header record count')
	t.eq(len(header.day_indexes), 32, 'number of day indexes')
	for i, (index, expected) in enumerate(zip(header.day_indexes, indexes)):
		t.eq((index.record_count, index.start_index), tuple(expected), 'day index %d' % i)

	t.eq(sorted(importer.daily_summaries), sorted(days), 'days with a summary')
	with_records = [d for d in sorted(days) if days[d][1]]
	t.eq(sorted(d for d, r in importer.daily_records.items() if r), with_records, 'days with records')
	expected_count = sum(len(days[d][1]) for d in days)
	t.eq(len(importer.records), expected_count, 'number of records')
	position = 0
	for day in sorted(days):
		summary, records = days[day]
		codec.compare(t, importer.daily_summaries[day], codec.expect_summary(summary, year, month, day), 'summary of day %d' % day)
		if records:
			t.eq(len(importer.daily_records[day]), len(records), 'number of records of day %d' % day)
		for k, raw in enumerate(records):
			expected = codec.expect_wlk_record(raw, year, month, day)
			codec.compare(t, importer.daily_records[day][k], expected, 'record %d of day %d' % (k, day))
			record = importer.records[position]
			t.check(record == importer.daily_records[day][k], 'record %d of day %d is not record %d of the file', k, day, position)
			position += 1


def base(month):
	return {
		'month': st.just(month),
		'version': st.sampled_from([b'WDAT5.0\0\0\0\0\0\0\0\5\0', b'WDAT5.3', b'ABCDEFGHIJKLMNOP', b'']),
		'total': st.integers(0, 50000),
		'unused': st.sampled_from([(0, 0), (0, 0), (5, 3), (-1, 77)]),
		'junk': st.integers(0, 1000),
		'prefix': st.sampled_from(['', '', 'station-', 'a b_', '1999-12', '.wlk']),
		'folder': st.sampled_from(['', '', 'sub', 'x-y.wlk']),
		'twice': st.booleans(),
	}


@st.composite
def structure(draw):
	month = draw(gen.months())
	length = gen.month_length(*month)
	d = {k: draw(v) for k, v in base(month).items()}
	kind = draw(st.sampled_from(['sparse', 'full', 'edge']))
	if kind == 'sparse':
		days = draw(st.sets(st.integers(1, length), max_size=6))
	elif kind == 'full':
		days = set(range(1, length + 1))
	else:
		days = draw(st.sets(st.sampled_from([1, 2, length - 1, length]), min_size=1))
	d['counts'] = {k: draw(st.one_of(st.integers(0, 4), st.sampled_from([0, 1, 24]))) for k in sorted(days)}
	return d


def check_structure(case, t):
	days, tag = {}, 1
	for day, count in case['counts'].items():
		records = []
		for k in range(count):
			records.append(plain_record(tag, (k + 1) * 1440 // max(count, 1), case['junk']))
			tag += 1
		days[day] = (plain_summary(day, case['junk']), records)
	total = sum(case['counts'].values())
	t.label('empty file' if not days else '%d+ days' % (len(days) // 10 * 10))
	if any(c == 0 for c in case['counts'].values()):
		t.label('day with only a summary')
	if case['twice']:
		t.label('imported twice')
	t.nontrivial(len(days) >= 2 and total >= 2)
	check_file(case, days, t)


@st.composite
def contents(draw):
	month = draw(gen.months())
	length = gen.month_length(*month)
	d = {k: draw(v) for k, v in base(month).items()}
	days = draw(st.lists(st.integers(1, length), min_size=1, max_size=2, unique=True))
	d['days'] = {k: (draw(gen.summary()), draw(st.lists(gen.wlk_record(), min_size=0, max_size=2))) for k in days}
	return d


def check_contents(case, t):
	t.nontrivial(sum(len(r) for _, r in case['days'].values()) >= 1)
	check_file(case, case['days'], t)


def check_long(case, t):
	records = [plain_record(k, k, 0) for k in range(1, 1441)]
	days = {day: (plain_summary(day, 1), records) for day in case['days']}
	t.nontrivial()
	check_file(case, days, t)


PROPERTY = Prop(
	'C01',
	'A .wlk file is built byte by byte from a generated month (header, 32 day indexes, per-day summary and records) and imported; '
	'the import is compared with what was encoded. Non-trivial: at least two days and two records (structure), at least one '
	'generated record (contents).',
	[
		Sub('structure', check_structure, structure, quick=400),
		Sub('contents', check_contents, contents, quick=200),
		Sub('one-minute-archive', check_long, cases=lambda: [
			{'days': [1, 2], 'month': (2015, 7), 'version': b'WDAT5.3', 'total': 2884, 'unused': (0, 0), 'junk': 0, 'prefix': '', 'folder': '', 'twice': False},
			{'days': [28, 29], 'month': (2016, 2), 'version': b'WDAT5.3', 'total': 2884, 'unused': (0, 0), 'junk': 1, 'prefix': '', 'folder': '', 'twice': True},
		]),
	],
	['The days\' data lies in the file in day order without gaps, as WeatherLink writes it, so the start index is consistent with it.'],
)
