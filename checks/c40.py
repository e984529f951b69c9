"""Several objects of each kind, used in turns."""
import contextlib
import datetime
import io
import os
import shutil
import tempfile
from decimal import Decimal

from hypothesis import strategies as st

from checks import c01, c05, c06, c20, c33, c35
from checks.c21 import FIELDS, RAPID
from checks.c32 import pattern
from checks.c34 import HOSTS, send
from wlv import archive, codec, fakedb, gen
from wlv.core import Prop, Sub
from wlv.fakehttp import Server
from wlv.fakesock import Console, Network

from weatherlink.downloader import Downloader
from weatherlink.exporter.mysql import MySQLExporter
from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.importer import Importer
from weatherlink.models import ArchiveIntervalRecord, DailySummary, LoopRecord
from weatherlink.poller import IPPoller
from weatherlink import utils

COUNT = 3  # objects of a kind
START = datetime.datetime(2015, 12, 30, 20)


class Imports(object):
	"""Importers of different files."""

	def __init__(self, t, stack):
		self.t = t
		self.folder = tempfile.mkdtemp(prefix='wlv')
		stack.callback(shutil.rmtree, self.folder)
		self.importers, self.held = {}, []

	def contents(self, i, arg):
		month = (2014 + i, 2 + i)
		days, tag = {}, 1 + 100 * i + arg
		for k in range(1 + (i + arg) % 3):
			day = 1 + 3 * k + i
			count = (arg + k + i) % 4
			days[day] = (c01.plain_summary(50 * i + day + arg, i), [c01.plain_record(tag + j, 60 * (j + 1), i) for j in range(count)])
			tag += count
		return month, days

	def step(self, i, arg):
		if i not in self.importers or arg % 4 < 2:
			month, days = self.contents(i, arg)
			path = os.path.join(self.folder, 'station%d-%04d-%02d.wlk' % ((i, ) + month))
			data, _ = c01.build(month[0], month[1], days, b'WDAT5.3', 7, (0, 0), i)
			with open(path, 'wb') as f:
				f.write(data)
			# a new importer, or another version of the file of an old one
			importer = Importer(path) if i not in self.importers or arg % 4 == 0 else self.importers[i][0]
			self.importers[i] = importer, month, days
		importer, month, days = self.importers[i]
		if arg % 5 == 2:
			# the file is cut off for a while
			with open(importer.file_name, 'rb') as f:
				data = f.read()
			with open(importer.file_name, 'wb') as f:
				f.write(data[:len(data) - 1 - arg % 90])
			self.t.raises('import of a file cut off', Exception, importer.import_data)
			with open(importer.file_name, 'wb') as f:
				f.write(data)
			self.verify_everything()
		importer.import_data()
		self.held = [h for h in self.held if h[1] is not importer] + [(i, importer, month, days)]
		self.everything = getattr(self, 'everything', []) + [(importer.records, importer.daily_records, month, days)]

	def verify(self):
		t = self.t
		for i, importer, month, days in self.held:
			t.eq(sorted(importer.daily_summaries), sorted(days), 'importer %d: days' % i)
			t.eq(len(importer.records), sum(len(r) for _, r in days.values()), 'importer %d: records' % i)
			for day in days:
				codec.compare(t, importer.daily_summaries[day], codec.expect_summary(days[day][0], month[0], month[1], day), 'importer %d, summary of day %d' % (i, day))
				t.eq(len(importer.daily_records.get(day, ())), len(days[day][1]), 'importer %d: records of day %d' % (i, day))
		self.verify_everything()

	def verify_everything(self):
		t = self.t
		for records, by_day, month, days in getattr(self, 'everything', []):
			t.eq(len(records), sum(len(r) for _, r in days.values()), 'records in a list obtained earlier')
			t.eq({d: len(r) for d, r in by_day.items() if r}, {d: len(r) for d, (_, r) in days.items() if r}, 'records by day obtained earlier')
			expected = [codec.expect_wlk_record(raw, month[0], month[1], day) for day in sorted(days) for raw in days[day][1]]
			for k, (record, e) in enumerate(zip(records, expected)):
				codec.compare(t, record, e, 'record %d imported earlier' % k)


class Downloads(object):
	"""Downloaders of different accounts."""

	def __init__(self, t, stack):
		self.t = t
		self.downloaders = [Downloader('user%d' % i, 'pass%d' % i, 'token%d' % i) for i in range(COUNT)]
		self.model = {}
		self.everything = []

	def step(self, i, arg):
		t = self.t
		interval = (1, 5, 10, 30)[(arg + i) % 4]
		records = [c05.tagged(50 * i + arg + k, START + datetime.timedelta(days=i, minutes=k * interval)) for k in range((arg + 2 * i) % 5)]
		case = {'console': 'console %d.%d' % (i, arg), 'interval': interval, 'count': len(records), 'maximum': 1000 + 10 * i + arg, 'extra': [],
			'order': [0], 'spaces': False, 'newline': '\n', 'records': records}
		case['header_text'], case['body'] = c05.header_text(case), c05.body(case)
		station = c05.Station(case)
		with Server(station):
			self.downloaders[i].download(1000 + i * 7 + arg)
		for r in station.requests:
			got = {k: r.parameters.get(k) for k in ('timestamp', 'user', 'pass', 'apiToken')}
			t.eq(got, {'timestamp': str(1000 + i * 7 + arg), 'user': 'user%d' % i, 'pass': 'pass%d' % i, 'apiToken': 'token%d' % i}, 'downloader %d: request' % i)
		self.model[i] = case
		self.everything.append((self.downloaders[i].records, case))

	def verify(self):
		t = self.t
		for i, case in self.model.items():
			d = self.downloaders[i]
			t.eq((d.console_version, d.record_minute_span, d.record_count, d.max_account_records, len(d.records)),
				(case['console'], case['interval'], case['count'], case['maximum'], case['count']), 'downloader %d' % i)
		for records, case in self.everything:
			t.eq(len(records), case['count'], 'records in a list obtained earlier')
			for k, (record, raw) in enumerate(zip(records, case['records'])):
				codec.compare(t, record, codec.expect_download_record(raw, case['interval']), 'record %d downloaded earlier' % k)


class Updates(object):
	"""Weather Underground exporters of different stations."""
	ZONES = ['UTC', 'Etc/GMT+7', 'Etc/GMT-12']

	def __init__(self, t, stack):
		self.t = t
		self.exporters = []
		for i in range(COUNT):
			e = WundergroundExporter('STATION%d' % i, 'secret%d' % i)
			e.station_time_zone = self.ZONES[i]
			self.exporters.append(e)
		self.history = [[] for _ in range(COUNT)]
		self.simple = [60] * COUNT  # rapid updates since the last simple one

	def step(self, i, arg):
		t = self.t
		e, history = self.exporters[i], self.history[i]
		rapid = not (arg % 7 == 3 and self.simple[i] >= 25)
		for k in range(1 + arg % 9 if rapid else 1):
			what = 'exporter %d, %s update %d' % (i, 'rapid' if rapid else 'simple', len(history) + 1)
			when = START + datetime.timedelta(days=i, seconds=2 * len(history))
			if rapid:
				record = LoopRecord(**{a: None for a in RAPID})
				speed, direction = (arg * 5 + k * 3 + 20 * i) % 60, 1 + (arg * 31 + 100 * i + k * 7) % 360
				record.update(date=when, wind_speed=speed, wind_direction_degrees=direction)
				history.append((speed, direction))
				self.simple[i] += 1
			else:
				when = when.replace(second=0)
				record = archive.build(dict(FIELDS, date=when, wind_speed=10 * i + arg % 10))
				self.simple[i] = 0
			exchange = send(t, e, rapid, record, what)
			p = exchange.parameters
			utc = when - datetime.timedelta(hours=c20.ZONES[self.ZONES[i]])
			t.eq((exchange.host, p.get('ID'), p.get('PASSWORD'), p.get('dateutc')),
				(HOSTS[rapid], 'STATION%d' % i, 'secret%d' % i, utc.strftime('%Y-%m-%d %H:%M:%S')), '%s: address, station, password, time' % what)
			if rapid:
				c35.gust(t, p, history, what)
				c35.average(t, p, history, what)

	def verify(self):
		pass


class Stores(object):
	"""MySQL exporters with databases, tables, columns and time zones of their own."""
	ZONES = ['Asia/Kolkata', 'UTC', 'Etc/GMT+7', 'Etc/GMT-12']
	COUNT = 4

	def __init__(self, t, stack):
		self.t = t
		self.servers, self.exporters, self.expected, self.connected = [], [], [], []
		self.tables = [c20.TABLE, c20.TABLE, 'my_archive', 'second_archive']
		for i in range(self.COUNT):
			schema = dict(c20.SCHEMA)
			e = MySQLExporter('user%d' % i, 'secret%d' % i, 'weather%d' % i, 'host%d' % i, 4000 + i)
			e.station_time_zone = self.ZONES[i]
			if i == 2:
				default = schema[c20.TABLE]
				columns = [fakedb.Column('x_' + c.name if c.name != 'record_id' else c.name, c.kind, c.args, c.unsigned, c.not_null, c.auto) for c in default.columns]
				schema['my_archive'] = fakedb.Table('my_archive', columns, [['x_' + c if c != 'record_id' else c for c in u] for u in default.uniques])
				e.archive_table_name = 'my_archive'
				e.archive_table_column_map = {k: 'x_' + v for k, v in MySQLExporter.DEFAULT_ARCHIVE_TABLE_COLUMN_MAP.items()}
			elif i == 3:
				default = schema[c20.TABLE]
				schema['second_archive'] = fakedb.Table('second_archive', default.columns, default.uniques)
				e.archive_table_name = 'second_archive'
			self.servers.append(fakedb.FakeServer(schema))
			self.exporters.append(e)
			self.expected.append({})
			self.connected.append(False)
		router = fakedb.Router({'weather%d' % i: s for i, s in enumerate(self.servers)})
		stack.enter_context(fakedb.patched(router))
		for s in self.servers:
			stack.callback(s.close)

	def step(self, i, arg):
		t = self.t
		e, server, expected = self.exporters[i], self.servers[i], self.expected[i]
		if not self.connected[i]:
			e.connect()
			self.connected[i] = True
			a = server.connect_arguments[-1]
			t.eq((a.get('host'), a.get('port')), ('host%d' % i, 4000 + i), 'exporter %d connected to' % i)
		if arg % 5 == 4:
			e.disconnect()
			self.connected[i] = False
			t.eq(len(server.open_connections()), 0, 'open connections of exporter %d' % i)
		elif arg % 5 == 3 and i < 2:
			e.recalculate_summaries_for_dates([row['timestamp_station'] for row in expected.values()])
			rows = [r for r in server.rows('weather_calculated_summary') if r['summary_type'] == 'DAILY']
			t.eq(len(rows), len({row['timestamp_station'].date() for row in expected.values()}), 'exporter %d: daily summaries' % i)
		elif arg % 5 == 2 and i < 2:
			newest = e.get_newest_timestamp()
			t.eq(newest, max(expected) if expected else None, 'exporter %d: newest time stamp' % i)
		else:
			when = START + datetime.timedelta(hours=3 * i, minutes=5 * len(expected))
			record = archive.build(dict(FIELDS, date=when, wind_speed=10 * i + arg % 10, rain_amount_clicks=arg % 3, humidity_inside=20 + i))
			e.export_record(record)
			expected[record['timestamp']] = c20.expected_row(record, self.ZONES[i])

	def verify(self):
		t = self.t
		for i, server in enumerate(self.servers):
			prefix = 'x_' if i == 2 else ''
			rows = server.rows(self.tables[i])
			t.eq(len(rows), len(self.expected[i]), 'rows of exporter %d' % i)
			for row in rows:
				expected = self.expected[i].get(row[prefix + 'timestamp_weatherlink'])
				t.check(expected is not None, 'exporter %d stored a row that it was not given', i)
				c20.compare(t, row, {prefix + k: v for k, v in expected.items()}, 'exporter %d' % i)


class Pollers(object):
	"""Connections to different consoles, in the foreground and in the background."""

	def __init__(self, t, stack):
		self.t = t
		self.consoles, self.pollers, self.sessions, self.sent = [], [], [None] * COUNT, [0] * COUNT
		self.network = stack.enter_context(Network())
		for i in range(COUNT):
			c = Console(eeprom=bytes((k * 7 + i * 11) % 256 for k in range(256)), fragments=[30 + i, 99])
			c.threaded = True
			self.consoles.append(c)
			self.network.consoles['console%d' % i] = c
			self.pollers.append(IPPoller('console%d' % i, 22222 + i))
		stack.enter_context(c33.captured(self.consoles))
		self.connected = [False] * COUNT
		self.packets = [2] * COUNT
		self.records = []

	def raws(self, i, count):
		out = []
		for _ in range(count):
			self.sent[i] += 1
			out.append(pattern(self.sent[i] % 50, 60 * i))
		return out

	def step(self, i, arg):
		t = self.t
		poller, console, session = self.pollers[i], self.consoles[i], self.sessions[i]
		if not self.connected[i]:
			poller.connect()
			t.eq(self.network.connect_calls[-1], ('console%d' % i, 22222 + i), 'poller %d connected to' % i)
			self.connected[i] = True
		del console.received[:]
		if session is not None:
			raw = self.raws(i, 1)
			before = len(session.got)
			if arg % 3 == 2:
				poller.stop_background_polling()
			console.send(codec.encode_loop2(raw[0]))
			ended = session.settle()
			t.eq(ended, arg % 3 == 2, 'whether the background polling of poller %d has ended' % i)
			if not ended:
				t.eq(len(session.got), before + 1, 'callbacks of poller %d' % i)
			for record in session.got[before:]:
				c06.compare(t, record, raw[0], 'packet in the background of poller %d' % i)
				self.records.append((record, raw[0]))
			if ended:
				self.sessions[i] = None
				# what was sent while stopping may not have been read
				with console.condition:
					del console.outgoing[:]
		elif arg % 7 == 6:
			poller.packet_type = self.packets[i] = 1 + (arg + i) % 3
		elif arg % 5 == 0:
			poller.packet_type = self.packets[i] = 2
			session = c33.Session(t, _One(console), poller, 'poller %d' % i)
			console.auto = False
			session.start(40)
			t.check(session.threads and not session.settle(), 'poller %d does not poll in the background', i)
			t.eq(bytes(console.received), b'LPS 2 40\n', 'sent to console %d' % i)
			self.sessions[i] = session
		elif arg % 5 == 1:
			poller.disconnect()
			self.connected[i] = False
		elif arg % 5 == 2:
			value = poller.read_config_setting('%X' % (arg % 20), '4')
			t.eq(value, bytes(console.eeprom[arg % 20:arg % 20 + 4]), 'setting read from console %d' % i)
		elif arg % 5 == 3:
			poller.write_config_setting('%X' % (arg % 20), '2', bytes([i, arg % 256]))
			t.eq(bytes(console.eeprom[arg % 20:arg % 20 + 2]), bytes([i, arg % 256]), 'setting written to console %d' % i)
		else:
			raws = self.raws(i, 1 + arg % 3)
			if self.packets[i] != 2:
				poller.packet_type = self.packets[i] = 2
			console.auto = True
			console.packets = [codec.encode_loop2(r) for r in raws]
			got = poller.poll(len(raws))
			t.eq(bytes(console.received), b'LPS 2 %d\n' % len(raws), 'sent to console %d' % i)
			t.eq(len(got), len(raws), 'packets of poller %d' % i)
			self.records.extend(zip(got, raws))

	def verify(self):
		t = self.t
		t.eq([p.packet_type for p in self.pollers], self.packets, 'kinds of packets that the pollers ask for')
		for record, raw in self.records:
			c06.compare(t, record, raw, 'record polled earlier')


class _One(object):
	def __init__(self, console):
		self.console = console


class Records(object):
	"""Records of different kinds with different attributes."""
	NAMES = ['temperature_outside', 'wind_speed', 'humidity_outside', 'something', 'barometric_pressure']

	def __init__(self, t, stack):
		self.t = t
		self.types = [ArchiveIntervalRecord, LoopRecord, DailySummary]
		self.records = []  # (record, expected)

	def step(self, i, arg):
		if self.records and arg % 3 == 0:  # one more attribute for one record
			record, expected = self.records[(arg + i) % len(self.records)]
			name = self.NAMES[arg % len(self.NAMES)]
			value = Decimal(arg + i)
			if i % 2:
				record[name] = value
			else:
				setattr(record, name, value)
			expected[name] = value
		else:
			names = self.NAMES[:1 + arg % len(self.NAMES)]
			values = {n: Decimal(40 + i + k) for k, n in enumerate(names)}
			self.records.append((self.types[i](**values), dict(values)))
		if arg % 4 == 1:
			record = archive.build(dict(FIELDS, date=START, wind_speed=5 + i, temperature_outside=Decimal(arg % 90), humidity_outside=50 + i))
			utils.calculate_all_record_values(record)
			self.records.append((record, dict(record)))

	def verify(self):
		for record, expected in self.records:
			self.t.check(dict(record) == expected, 'a record has %s, it was given %s', dict(record), expected)
			for name in self.NAMES:
				self.t.eq(getattr(record, name, None), expected.get(name), 'attribute %s of a record' % name)


KINDS = {'import': Imports, 'download': Downloads, 'update': Updates, 'store': Stores, 'poll': Pollers, 'record': Records}


def check(case, t):
	used, turns = {}, []
	with contextlib.ExitStack() as stack:
		for kind, i, arg in case:
			if kind not in used:
				with t.sut('creating objects to %s' % kind):
					used[kind] = KINDS[kind](t, stack)
			with t.sut('%s %d' % (kind, i)):
				used[kind].step(i % getattr(KINDS[kind], 'COUNT', COUNT), arg)
			turns.append((kind, i))
		for world in used.values():
			world.verify()
	for kind in used:
		mine = [i % getattr(KINDS[kind], 'COUNT', COUNT) for k, i in turns if k == kind]
		switches = sum(1 for a, b in zip(mine, mine[1:]) if a != b)
		if switches >= 2:
			t.label('turns: %s' % kind)
			t.nontrivial()


def strategy():
	def steps(kinds):
		step = st.tuples(st.sampled_from(kinds), st.integers(0, 11), st.integers(0, 60))
		return st.lists(step, min_size=2, max_size=24)
	names = sorted(KINDS)
	return st.one_of(st.sampled_from(names).flatmap(lambda k: steps([k])), st.lists(st.sampled_from(names), min_size=2, max_size=3, unique=True).flatmap(steps))


def check_same(case, t):
	"""Records of the same contents are still records of their own, and so are those of a later load of the same bytes."""
	route, raw, count, target, change = case
	kinds = {
		'wlk': (lambda s: ArchiveIntervalRecord.load_from_wlk(s, 2016, 5, 7), codec.encode_wlk_record, lambda r: codec.expect_wlk_record(r, 2016, 5, 7)),
		'summary': (lambda s: DailySummary.load_from_wlk(s, 2016, 5, 7), codec.encode_summary, lambda r: codec.expect_summary(r, 2016, 5, 7)),
		'download': (lambda s: ArchiveIntervalRecord.load_from_download(s, 5), codec.encode_download_record, lambda r: codec.expect_download_record(r, 5)),
		'loop': (LoopRecord.load_loop_2_from_connection, codec.encode_loop2, None),
	}
	kind = route.split()[0]
	load, encode, expect = kinds[kind]
	data = encode(raw)

	def fresh(number):
		if route == 'wlk file':
			folder = tempfile.mkdtemp(prefix='wlv')
			try:
				path = os.path.join(folder, '2016-05.wlk')
				with open(path, 'wb') as f:
					f.write(c01.build(2016, 5, {7: (c01.plain_summary(1, 0), [raw] * number)}, b'WDAT5.3', number, (0, 0), 0)[0])
				importer = Importer(path)
				importer.import_data()
			finally:
				shutil.rmtree(folder)
			t.eq(len(importer.records), number, 'records in the file')
			return list(importer.records)
		if route == 'download session':
			s = {'console': 'x', 'interval': 5, 'count': number, 'maximum': 9, 'extra': [], 'order': [0], 'spaces': False, 'newline': '\n', 'records': [raw] * number}
			s['header_text'], s['body'] = c05.header_text(s), c05.body(s)
			downloader = Downloader('user', 'pass', 'token')
			with Server(c05.Station(s)):
				downloader.download(1000)
			t.eq(len(downloader.records), number, 'records in the download')
			return list(downloader.records)
		if route == 'loop poll':
			console = Console()
			console.auto, console.packets = True, [data] * number
			with Network() as network:
				network.consoles['console'] = console
				poller = IPPoller('console')
				poller.connect()
				got = poller.poll(number)
				poller.disconnect()
			t.eq(len(got), number, 'packets polled')
			return list(got)
		return [load(io.BytesIO(data)) for _ in range(number)]

	def intact(record, what):
		if kind == 'loop':
			c06.compare(t, record, raw, what)
		else:
			codec.compare(t, record, expect(raw), what)
		t.check('mark' not in record, '%s has what was set on another one', what)

	with t.sut('loading by %s' % route):
		records = fresh(count)
	target %= count
	victim = records[target]
	names = [n for n in sorted(victim) if n not in ('date', )]
	with t.sut('changing one record'):
		victim['mark'] = 1
		if change == 'clear':
			victim.clear()
		elif change == 'attribute':
			setattr(victim, names[len(names) // 2], 'changed')
		elif change == 'pop':
			victim.pop(names[0])
		elif change == 'update':
			victim.update({n: None for n in names})
	for k, record in enumerate(records):
		if k != target:
			intact(record, 'record %d by %s after record %d was changed' % (k, route, target))
	with t.sut('loading again'):
		again = fresh(count)
	for k, record in enumerate(again):
		intact(record, 'record %d by %s, loaded again' % (k, route))
	t.label(route, change)
	t.nontrivial(count >= 2)


def same():
	routes = {'wlk': gen.wlk_record, 'wlk file': lambda: st.builds(c01.plain_record, st.integers(1, 99), st.integers(0, 1439), st.integers(0, 9)),
		'download': gen.download_record, 'download session': gen.download_record, 'summary': gen.summary, 'loop': gen.loop2_record,
		'loop poll': gen.loop2_record}
	return st.sampled_from(sorted(routes)).flatmap(lambda r: st.tuples(
		st.just(r), routes[r](), st.integers(1, 5), st.integers(0, 4), st.sampled_from(['clear', 'attribute', 'pop', 'update', 'mark'])))


PROPERTY = Prop(
	'C40',
	'Up to 24 steps in turns on three importers, downloaders, Weather Underground exporters, pollers (also polling in the '
	'background), four MySQL exporters, and records, one kind or several, each object with a configuration, far end and contents of its own; every step is judged '
	'by what that object alone should do, and in the end everything obtained or stored earlier is compared again; and one to five '
	'records of the same contents by each route, one of them changed, the others and a later load compared. Non-trivial: '
	'turns between objects of one kind (at least A, B, A); at least two records of the same contents.',
	[Sub('turns', check, strategy, quick=1200), Sub('same', check_same, same, quick=600)],
	['The far ends are the same doubles that the other checks use.', 'Objects take turns; only background polling is concurrent with other objects.'],
)
