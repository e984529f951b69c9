"""From measurements to archive, summaries and rain events, through files and downloads."""
import datetime
import os
import shutil
import tempfile

from hypothesis import strategies as st

from checks import c01, c20, c23, c26, c38
from checks.c39 import Station
from wlv import archive, codec, fakedb, summaries
from wlv.core import Prop, Sub
from wlv.fakehttp import Server

from weatherlink.downloader import Downloader
from weatherlink.exporter.mysql import MySQLExporter
from weatherlink.importer import Importer

SCHEMA = fakedb.repository_schema()
ZONE = 'Asia/Kolkata'


def measurements(rows, start, interval):
	"""The measurements with their dates, in order of time."""
	out, when = [], start
	for gap, rain, m in rows:
		if gap is None:  # the next midnight
			when = datetime.datetime.combine(when.date() + datetime.timedelta(days=1), datetime.time())
		else:
			when += datetime.timedelta(minutes=interval * (1 + gap))
		out.append(dict(m, date=when, minutes_covered=interval, rain_amount_clicks=rain, rain_rate_clicks=rain * m['rain_rate_clicks'] % 900))
	return out


def files_of(found):
	"""{(year, month): {day: [raw records]}}"""
	out = {}
	for m in found:
		day, raw = c38.wlk_raw(m)
		out.setdefault((day.year, day.month), {}).setdefault(day.day, []).append(raw)
	return out


def new_exporter():
	exporter = MySQLExporter('user', 'secret', 'weather')
	exporter.station_time_zone = ZONE
	return exporter


def process(exporter, records, summarize=True, search=True):
	"""What a user does with records that have arrived."""
	with exporter:
		for r in records:
			exporter.export_record(r)
		if summarize:
			exporter.recalculate_summaries_for_dates([r.date for r in records])
			if search:
				exporter.find_new_rain_events()


def compare(t, server, found):
	rows = server.rows(c20.TABLE, 'timestamp_weatherlink')
	t.eq([r['timestamp_station'] for r in rows], [m['date'] for m in found], 'station times of the archive')
	for row, m in zip(rows, found):
		record = archive.build({k: v for k, v in m.items() if k not in ('junk', 'midnight_as_1440')})
		c20.compare(t, row, dict(c20.expected_row(record, ZONE)), 'measurement of %s' % m['date'])
	days = sorted({m['date'].date() for m in found})
	stored = {summaries.key_of(r): r for r in server.rows(summaries.SUMMARY)}
	t.eq(set(stored), summaries.expected_keys(days), 'summaries')
	daily = {datetime.date(k[1], k[2], k[4]): r for k, r in stored.items() if k[0] == 'DAILY'}
	for key, summary in stored.items():
		what = '%s summary %s' % (key[0].lower(), key[1:])
		own = [datetime.date(key[1], key[2], key[4])] if key[0] == 'DAILY' else c23.members(key[0], key, days)
		records = [r for r in rows if r['timestamp_station'].date() in own]
		summaries.compare_statistics(t, summary, records, what)
		summaries.compare_timestamps(t, summary, records, what)
		if key[0] == 'DAILY':
			summaries.compare_daily_extras(t, summary, records, what)
		else:
			summaries.compare_rollup(t, summary, [daily[d] for d in own], what)
			summaries.compare_run_average(t, summary['wind_run_distance_daily_average'], [daily[d] for d in own], what + ', daily')
	events = c26.reference(rows)
	c26.compare(t, server, events, 'in the end')
	return len(days), len(events)


def import_files(t, folder, found, search, exporters):
	for (year, month), days in sorted(files_of(found).items()):
		path = os.path.join(folder, '%04d-%02d.wlk' % (year, month))
		data, _ = c01.build(year, month, {d: (c01.plain_summary(d, month), raws) for d, raws in days.items()}, b'WDAT5.3', 3, (0, 0), month)
		with open(path, 'wb') as f:
			f.write(data)
		with t.sut('importing %04d-%02d' % (year, month)):
			importer = Importer(path)
			importer.import_data()
			process(exporters(), importer.records, True, search)
		t.label('from a file')


def download(t, station, found, turns, search, exporters):
	"""New measurements arrive a few at a time."""
	position = k = 0
	waiting = []
	with Server(station):
		downloader = Downloader('u', 'p', 't')
		while True:
			number, summarize = turns[k % len(turns)]
			with t.sut('downloading'):
				exporter = exporters()
				with exporter:
					newest = exporter.get_newest_timestamp()
				downloader.download(newest or 0)
				process(exporters(), downloader.records, summarize, search)
			if not summarize:
				waiting.extend(r.date for r in downloader.records)
			if waiting and (position == len(found) or k % 3 == 2):
				with t.sut('summarizing later'):
					with exporter:
						exporter.recalculate_summaries_for_dates(waiting)
						if search:
							exporter.find_new_rain_events()
				t.label('summarized later')
				waiting = []
			if position == len(found):
				break
			arrived = min(position + number, len(found))
			for m in found[position:arrived]:
				station.records.append((codec.timestamp(m['date']), c38.download_raw(m)))
			position = arrived
			k += 1
	if found:
		t.label('from a download')


def check(case, t):
	start, interval, split, rows, turns, files_last, one = case
	found = measurements(rows, start, interval)
	midnights = [k + 1 for k, m in enumerate(found) if m['date'].time() == datetime.time()]
	split = midnights[split % len(midnights)] if midnights and split > 15 else split % (len(found) + 1)
	server = fakedb.FakeServer(SCHEMA)
	if one:  # exporter for everything
		exporter = new_exporter()
		exporters = lambda: exporter
	else:
		exporters = new_exporter
	folder = tempfile.mkdtemp(prefix='wlv')
	try:
		with fakedb.patched(server):
			station = Station(interval, 10240)
			if files_last:  # the account holds only the later measurements; the files come from an old computer
				download(t, station, found[split:], turns, False, exporters)
				import_files(t, folder, found[:split], False, exporters)
			else:  # the account also has what comes from the files
				import_files(t, folder, found[:split], True, exporters)
				station.records = [(codec.timestamp(m['date']), c38.download_raw(m)) for m in found[:split]] if split else []
				download(t, station, found[split:], turns, True, exporters)
			with t.sut('searching for rain'):
				exporter = exporters()
				with exporter:
					exporter.find_new_rain_events()
	finally:
		shutil.rmtree(folder)
	days, events = compare(t, server, found)
	t.label('%d days' % min(days, 4), '%d rain events' % min(events, 3), 'files last' if files_last else 'files first')
	t.nontrivial(days >= 2 and len(found) >= 4)


def strategy():
	gap = st.one_of(st.none(), st.just(0), st.sampled_from([0, 1, 2, 5]), st.integers(0, 40), st.integers(100, 900))
	row = st.tuples(gap, st.sampled_from([0, 0, 0, 1, 2, 30]), c38.measurement())
	start = st.sampled_from([datetime.datetime(2015, 12, 30, 20), datetime.datetime(2016, 2, 28, 21, 30), datetime.datetime(2014, 12, 27, 23), datetime.datetime(2016, 6, 5, 10),
		datetime.datetime(2020, 12, 31, 22, 50), datetime.datetime(2009, 12, 31, 12), datetime.datetime(2013, 3, 31, 23, 30)])
	return st.tuples(start, st.sampled_from([1, 5, 10, 10, 30, 60]), st.integers(0, 30), st.lists(row, min_size=1, max_size=12),
		st.lists(st.tuples(st.integers(1, 5), st.booleans()), min_size=1, max_size=4), st.sampled_from([False, False, True]), st.booleans())


PROPERTY = Prop(
	'C42',
	'Generated measurements around month and year ends, the first of them in .wlk files and the rest downloaded a few at a time from the newest stored '
	'time stamp; all are exported, summarized and searched for rain as they arrive (or the files come after the downloads, with one search for rain in the end). The archive rows, all summaries (with times of extremes) and the '
	'rain events in the end are compared with references computed from the measurements. Non-trivial: at least four measurements on at least two days.',
	[Sub('pipeline', check, strategy, quick=1200)],
	['Measurements are physically plausible, as in C38, and arrive in order of time.', 'The database and the account are the doubles that the other checks use.'],
)
