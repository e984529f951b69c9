"""Downloading what is new and storing it, over and over, with interruptions."""
import datetime

from hypothesis import strategies as st

from checks.c05 import tagged
from checks.c20 import TABLE
from wlv import codec, fakedb
from wlv.core import Prop, Sub
from wlv.fakehttp import Server

from weatherlink.downloader import Downloader
from weatherlink.exporter.mysql import MySQLExporter

SCHEMA = fakedb.repository_schema()


class Station(object):
	"""A WeatherLink account: it returns the records newer than the requested time stamp, oldest first, up to a limit."""

	def __init__(self, interval, limit):
		self.interval, self.limit = interval, limit
		self.records = []  # (time stamp, raw)
		self.asked = []
		self.fail = None

	def __call__(self, exchange):
		import requests
		p = exchange.parameters
		after = int(p['timestamp'])
		self.asked.append(after)
		new = [raw for stamp, raw in self.records if stamp > after][:self.limit]
		if self.fail == p['action']:
			self.fail = None
			return requests.exceptions.ConnectionError('injected')
		if p['action'] == 'headers':
			text = 'Model=16\nConsoleVer=Sep 14 2012\nArchiveInt=%d\nRecords=%d\nMaxRecords=10240\n' % (self.interval, len(new))
			return 200, {'Content-Type': 'text/html'}, text.encode()
		return 200, {'Content-Type': 'application/octet-stream', 'Content-Transfer-Encoding': 'binary'}, b''.join(
			codec.encode_download_record(raw) for raw in new)


def synchronize(server, downloader, exporter, keep=False):
	"""What a user of the library runs periodically; with `keep`, on one connection for as long as it works."""
	with fakedb.patched(server):
		if not (keep and server.connected):
			exporter.connect()
			server.connected = True
		works = True
		try:
			newest = exporter.get_newest_timestamp()
			downloader.download(newest if newest is not None else 0)
			for record in downloader.records:
				exporter.export_record(record)
		except Exception:
			fault = server.fault
			works = not fault.fired or fault.kind in ('statement', 'error') and fault.log[fault.at - 1] in ('cursor', 'execute', 'commit', 'cursor.close')
			raise
		finally:
			if not (keep and works):
				server.connected = False
				try:
					exporter.disconnect()
				except Exception:
					pass


def check(case, t):
	start, interval, limit, rounds, keep = case
	station = Station(interval, limit)
	server = fakedb.FakeServer(SCHEMA)
	server.connected = False
	downloader = Downloader('u', 'p', 't')
	exporter = MySQLExporter('user', 'secret', 'weather')
	exporter.station_time_zone = 'UTC'
	when, k, interrupted = start, 0, False
	with Server(station):
		for arrived, gap, fault, at in rounds + [(0, 0, None, 0)]:
			for _ in range(arrived):
				stamp = codec.timestamp(when)
				station.records.append((stamp, tagged(k, when)))
				k += 1
				when += datetime.timedelta(minutes=interval * (1 + gap))
			stored = len(server.rows(TABLE))
			if fault in ('headers', 'data'):
				station.fail = fault
			elif fault:
				server.fault = fakedb.FaultPlan(1 + at, fault)
			failed = False
			try:
				synchronize(server, downloader, exporter, keep)
			except Exception as e:
				if not (fault in ('headers', 'data') or server.fault.fired):
					t.fail('synchronizing raised %s: %s' % (type(e).__name__, e))
				failed = True
			if fault and (server.fault.fired or fault in ('headers', 'data')):
				t.label('interrupted by %s' % fault)
				interrupted = interrupted or (failed and len(server.rows(TABLE)) > stored)
			server.fault = fakedb.FaultPlan()
			rows = server.rows(TABLE, 'timestamp_weatherlink')
			stamps = [r['timestamp_weatherlink'] for r in rows]
			t.eq(stamps, [s for s, _ in station.records][:len(stamps)], 'stored time stamps after a synchronization')
			if not failed:
				t.check(len(stamps) >= min(len(station.records), stored + limit), 'a synchronization without an error stored only %d records of %d', len(stamps) - stored, len(station.records) - stored)
		while len(server.rows(TABLE)) < len(station.records):
			before = len(server.rows(TABLE))
			with t.sut('synchronizing'):
				synchronize(server, downloader, exporter, keep)
			t.check(len(server.rows(TABLE)) > before, 'synchronizing stops at %d of %d records', before, len(station.records))
	exporter.disconnect()  # what is not committed is gone
	rows = server.rows(TABLE, 'timestamp_weatherlink')
	t.eq(len(rows), len(station.records), 'stored records in the end')
	for row, (stamp, raw) in zip(rows, station.records):
		expected = codec.expect_download_record(raw, interval)
		t.eq(row['timestamp_station'], expected['date'][0], 'station time of record %d' % stamp)
		t.eq(row['rain_clicks'], raw['rain_clicks'], 'rain of record %d' % stamp)
		t.eq(row['wind_speed'], raw['wind_speed'], 'wind of record %d' % stamp)
	t.label('%d records' % (len(rows) // 10 * 10))
	t.label('one connection' if keep else 'a connection each time')
	t.nontrivial(interrupted)


def check_newest(case, t):
	"""The newest time stamp, whatever order the records arrived in."""
	zone, case, removals = case
	server = fakedb.FakeServer(SCHEMA)
	exporter = MySQLExporter('user', 'secret', 'weather')
	exporter.station_time_zone = zone
	from wlv import archive
	from checks.c21 import FIELDS
	with fakedb.patched(server):
		exporter.connect()
		with t.sut('get_newest_timestamp'):
			t.check(exporter.get_newest_timestamp() is None, 'an empty archive has a newest time stamp')
		newest = None
		for k, d in enumerate(case):
			exporter.export_record(archive.build(dict(FIELDS, date=d)))
			newest = d if newest is None else max(d, newest)
			with t.sut('get_newest_timestamp'):
				got = exporter.get_newest_timestamp()
			t.eq(got, codec.timestamp(newest), 'newest time stamp after %d records' % (k + 1))
			t.nontrivial(newest != d)
			if k in removals:  # a user removes records to have them downloaded again
				left = sorted(case[:k + 1])[:removals[k] % (k + 1)] if newest is not None else []
				present = {r['timestamp_weatherlink'] for r in server.rows(TABLE)}
				left = [x for x in left if codec.timestamp(x) in present]
				for stamp in present - {codec.timestamp(x) for x in left}:
					server.db.execute('DELETE FROM %s WHERE timestamp_weatherlink = ?' % TABLE, (stamp, ))
				newest = max(left) if left else None
				with t.sut('get_newest_timestamp'):
					got = exporter.get_newest_timestamp()
				t.eq(got, codec.timestamp(newest) if left else None, 'newest time stamp after records were removed')
				t.label('records removed')
		exporter.disconnect()


STARTS = st.one_of(
	st.sampled_from([datetime.datetime(2015, 12, 31, 22), datetime.datetime(2016, 2, 28, 23), datetime.datetime(2016, 1, 31, 12), datetime.datetime(2016, 7, 9, 9, 50)]),
	st.integers(0, 10 ** 6).map(lambda k: datetime.datetime(2010, 1, 1) + datetime.timedelta(minutes=k * 5)),
)


def strategy():
	rounds = st.tuples(st.integers(0, 8), st.sampled_from([0, 0, 1, 7, 300]),
		st.sampled_from([None, 'lost', 'statement', 'error', 'committed', 'committed', 'headers', 'data']), st.one_of(st.integers(0, 30), st.integers(0, 8)))
	return st.tuples(STARTS, st.sampled_from([1, 5, 10, 30, 60, 120]), st.sampled_from([3, 10, 1000]), st.lists(rounds, min_size=1, max_size=5), st.booleans())


def newest_strategy():
	from wlv import gen
	scattered = st.lists(gen.minute_datetimes(datetime.datetime(2001, 1, 2), datetime.datetime(2062, 12, 30)), min_size=1, max_size=6, unique=True)
	# around a change of the clock, where the order of station times need not be that of UTC times
	near = st.sampled_from([('America/Chicago', 3, 13, 3), ('America/Chicago', 11, 6, 1), ('Europe/Berlin', 3, 27, 3), ('Australia/Lord_Howe', 10, 2, 2)]).flatmap(
		lambda c: st.tuples(st.just(c[0]), st.lists(st.integers(-7, 7).map(lambda k: datetime.datetime(2016, *c[1:]) + datetime.timedelta(minutes=k * 10)),
			min_size=2, max_size=5, unique=True)))
	removals = st.dictionaries(st.integers(0, 5), st.integers(0, 5), max_size=2)
	return st.tuples(st.one_of(st.tuples(st.sampled_from(['UTC', 'America/Chicago', 'Asia/Kolkata']), scattered), near), removals).map(lambda x: x[0] + (x[1], ))


PROPERTY = Prop(
	'C39',
	'Histories of up to six synchronizations (ask for the newest stored time stamp, download what is newer, store it) while records keep '
	'arriving on an account double, interrupted at generated points: lost HTTP requests, and database failures at any operation '
	'including a commit whose answer is lost, with a connection for each synchronization or one for as long as it works. After every round the stored records are a prefix of the account\'s, and in the end all of '
	'them, once. Non-trivial: an interruption after some but not all records of a round were stored.',
	[
		Sub('histories', check, strategy, quick=400),
		Sub('long', check, cases=lambda: [(datetime.datetime(2015, 12, 30), 5, 10240, [(400, 0, 'lost', 500), (300, 0, None, 0)], False),
			(datetime.datetime(2016, 2, 28, 12), 1, 120, [(257, 0, None, 0), (100, 0, 'committed', 90)], True)]),
		Sub('newest', check_newest, newest_strategy, quick=300),
	],
	['The account double returns the records after the requested time stamp, oldest first, as the service documents.',
		'The database double stands for MySQL with transactions.'],
)
