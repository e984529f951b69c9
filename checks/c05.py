"""A web download session."""
import datetime

import requests
from hypothesis import strategies as st

from wlv import codec, gen
from wlv.core import Prop, Sub
from wlv.fakehttp import Server

from weatherlink.downloader import Downloader

# Everything a user can type; credentials must arrive at the server unchanged
TEXT = st.one_of(
	st.text('abcXYZ019', min_size=1, max_size=12),
	st.text('ab &=?#%+/:;@!$\'"()*,~.-_<>[]\\^`{|}', min_size=1, max_size=12),
	st.lists(st.sampled_from(['%', '%25', '%2', '%20', '%2B', '%41', '+', '&', '=', 'a', '7', 'F', '%%', '&amp;']), min_size=1, max_size=4).map(''.join),
	st.text(min_size=1, max_size=8).filter(lambda s: s.isprintable()),
)


def given(headers):
	return {k: v for k, v in headers.items() if v is not None}


class Station(object):
	"""The server's side: checks each request, answers with the session's headers and records."""

	def __init__(self, case):
		self.case = case
		self.requests = []

	def __call__(self, exchange):
		self.requests.append(exchange)
		action = exchange.parameters.get('action')
		if action == 'headers':
			return 200, given({'Content-Type': self.case.get('headers_type', 'text/html')}), self.case['header_text'].encode('latin1')
		headers = {'Content-Type': self.case.get('data_type', 'application/octet-stream'),
			'Content-Transfer-Encoding': self.case.get('transfer', 'binary')}
		if self.case.get('encoding'):
			headers['Content-Encoding'] = self.case['encoding']
		return 200, given(headers), self.case['body']


def header_text(case):
	pairs = [('Model', case.get('model', '16')), ('ConsoleVer', case['console']), ('ArchiveInt', str(case['interval'])),
		('Records', str(case['count'])), ('MaxRecords', str(case['maximum']))]
	for k, v in case['extra']:
		pairs.append((k, v))
	order = case['order']
	pairs = [p for _, p in sorted(enumerate(pairs), key=lambda x: (order[x[0] % len(order)], x[0]))]
	eq = ' = ' if case['spaces'] else '='
	return case['newline'].join(k + eq + v for k, v in pairs) + case['newline']


def body(case):
	data = b''.join(codec.encode_download_record(r) for r in case['records'])
	if case.get('slots') is not None:
		data += codec.filler(0, 1)
		for k in range(case['slots']):
			slot = codec.filler(codec.DOWNLOAD_LENGTH, k)
			slot[0:4] = b'\0\0\0\0'
			data += bytes(slot)
			if k < len(case.get('behind', ())):
				data += codec.encode_download_record(case['behind'][k])
	return data + bytes(case.get('trailer', b''))


FROM = st.one_of(st.integers(0, 2 ** 32), gen.minute_datetimes(), gen.minute_datetimes().map(lambda d: d.replace(second=33, microsecond=5)))


def session(records, maximum=3):
	return st.fixed_dictionaries({
		'console': st.sampled_from(['Sep 14 2012', 'Apr 24 2002', 'a=b']),
		'interval': st.sampled_from([1, 5, 10, 15, 30, 60, 120]),
		'maximum': st.sampled_from([10240, 8640, 0]),
		'extra': st.lists(st.tuples(st.sampled_from(['Foo', 'Bar Baz']), st.sampled_from(['1', 'x=y', ''])), max_size=1),
		'order': st.lists(st.integers(0, 9), min_size=6, max_size=6),
		'spaces': st.booleans(),
		'newline': st.sampled_from(['\r\n', '\n']),
		'headers_type': st.sampled_from(['text/html', 'text/plain']),
		'records': st.lists(records, max_size=maximum),
		'slots': st.sampled_from([0, 0, 1, 3]),
		'behind': st.lists(records, max_size=2),  # what follows an unused slot is not read
		'counted': st.booleans(),  # whether unused slots count in the announced number of records
		'trailer': st.sampled_from([b'', b'', b'\1' * 52]),
		'from': FROM,
	})


def complete(s):
	s = dict(s)
	slots = s['slots']
	s['count'] = len(s['records']) + (slots + min(slots, len(s.get('behind', ()))) if s['counted'] else 0)
	s['header_text'] = header_text(s)
	s['body'] = body(s)
	return s


def check_sessions(case, t):
	user, password, token, sessions = case
	with t.sut('Downloader'):
		downloader = Downloader(user, password, token)
	for s in sessions:
		s = complete(s)
		station = Station(s)
		with Server(station):
			with t.sut('download'):
				downloader.download(s['from'])
		timestamp = s['from'] if isinstance(s['from'], int) else codec.timestamp(s['from'])
		t.eq([r.parameters.get('action') for r in station.requests], ['headers', 'data'], 'requests')
		for r in station.requests:
			t.eq((r.method, r.scheme, r.host, r.path), ('GET', 'https', 'api.weatherlink.com', '/webdl.php'), 'request')
			for name, value in (('timestamp', str(timestamp)), ('user', user), ('pass', password), ('apiToken', token)):
				values = [v for k, v in r.query if k == name]
				t.check(values == [value], 'parameter %s of the %s request: expected %r, the server decodes %r from %s', name,
					r.parameters.get('action'), value, values, r.url)
			t.eq(len(r.query), 5, 'number of parameters in %s' % r.url)
		encoding = station.requests[1].headers.get('Accept-Encoding')
		t.check(encoding == 'identity', 'the data request accepts encodings %r, the records are read unencoded', encoding)
		t.eq(downloader.console_version, s['console'], 'console version')
		t.eq(downloader.record_minute_span, s['interval'], 'archive interval')
		t.eq(downloader.record_count, s['count'], 'record count')
		t.eq(downloader.max_account_records, s['maximum'], 'maximum records')
		t.eq(len(downloader.records), len(s['records']), 'number of downloaded records')
		for k, raw in enumerate(s['records']):
			codec.compare(t, downloader.records[k], codec.expect_download_record(raw, s['interval']), 'record %d' % k)
		if s['slots'] and s['counted']:
			t.label('unused slots')
	t.label('%d downloads' % len(sessions))
	if any(not c.isalnum() for c in user + password + token):
		t.label('reserved characters in credentials')
	t.nontrivial(sum(len(s['records']) for s in sessions) >= 1)


def strategy():
	return st.tuples(TEXT, TEXT, TEXT, st.lists(session(gen.download_record()), min_size=1, max_size=2))


# --- many records, cheap to generate
def tagged(k, when):
	ds, ts = codec.date_stamps(when)
	raw = {f[0]: 1 + (k * 7 + i) % 200 for i, f in enumerate(codec.DOWNLOAD_FIELDS)}
	raw.update(rain_clicks=k % 40, rain_rate_clicks=k % 300, wind_direction_prevailing=k % 16, wind_direction_speed_high=(k + 3) % 16,
		junk=k, date_stamp=ds, time_stamp=ts)
	return raw


def check_many(case, t):
	count, interval, start = case[:3]
	steps = case[3] if len(case) > 3 else [interval]  # minutes from each record to the next
	when, records = start, []
	for k in range(count):
		records.append(tagged(k, when))
		when += datetime.timedelta(minutes=steps[k % len(steps)])
	if any(s != interval for s in steps):
		t.label('irregular times')
	check_sessions(('u', 'p', 't', [{
		'console': 'x', 'interval': interval, 'maximum': 10240, 'extra': [], 'order': [0], 'spaces': False, 'newline': '\n',
		'headers_type': 'text/html', 'records': records, 'slots': 0, 'counted': False, 'trailer': b'', 'from': start}]), t)


# --- responses that must not be taken for data
def check_rejected(case, t):
	s, fault, argument = case
	s = complete(s)
	if fault == 'headers_type':
		s['headers_type'] = argument
	elif fault == 'data_type':
		s['data_type'] = argument
	elif fault == 'transfer':
		s['transfer'] = argument
	elif fault == 'encoding':
		s['encoding'] = argument
	elif fault == 'model':
		s['model'] = argument
		s['header_text'] = header_text(s)
	elif fault == 'missing':
		s['header_text'] = s['newline'].join(l for l in s['header_text'].splitlines() if not l.startswith(argument)) + s['newline']
	elif fault == 'truncated':
		full = len(s['records']) * codec.DOWNLOAD_LENGTH
		s['count'] = len(s['records'])
		s['slots'] = 0
		s['header_text'] = header_text(s)
		s['body'] = s['body'][:min(argument, full - 1)]
	downloader = Downloader('u', 'p', 't')
	station = Station(s)
	with Server(station):
		t.raises('download with %s %r' % (fault, argument), Exception, downloader.download, s['from'])
	t.label(fault)
	t.nontrivial()


def rejected():
	records = gen.download_record()
	full = session(records).filter(lambda s: s['records'])
	fault = st.one_of(
		st.tuples(st.just('headers_type'), st.sampled_from(['application/octet-stream', 'text/xml', 'application/json', 'image/png', None])),
		st.tuples(st.just('data_type'), st.sampled_from(['text/html', 'text/plain', 'application/json', 'application/x-gzip', None])),
		st.tuples(st.just('transfer'), st.sampled_from(['base64', 'quoted-printable', '7bit', None])),
		st.tuples(st.just('encoding'), st.sampled_from(['br', 'compress', 'deflate', 'gzip'])),
		st.tuples(st.just('model'), st.sampled_from(['17', '1', '6', '0', '161', '', '272', '116', '-16', '16x', '32'])),
		st.tuples(st.just('missing'), st.sampled_from(['Model', 'ArchiveInt', 'Records', 'MaxRecords', 'ConsoleVer'])),
		st.tuples(st.just('truncated'), st.integers(0, 3 * 52)),
	)
	return st.tuples(full, fault).map(lambda x: (x[0], x[1][0], x[1][1]))


def check_required(case, t):
	t.raises('Downloader%r' % (case, ), ValueError, Downloader, *case)
	t.nontrivial()


def check_lost(case, t):
	"""A connection error on either request reaches the caller."""
	s, which = case
	s = complete(s)
	station = Station(s)

	def handler(exchange):
		if exchange.parameters.get('action') == which:
			return requests.exceptions.ConnectionError('injected')
		return station(exchange)
	downloader = Downloader('u', 'p', 't')
	with Server(handler):
		t.raises('download with a lost connection', requests.exceptions.RequestException, downloader.download, s['from'])
	with Server(station):
		with t.sut('download after a lost connection'):
			downloader.download(s['from'])
	t.eq(len(downloader.records), len(s['records']), 'records after a retried download')
	t.nontrivial(bool(s['records']))


PROPERTY = Prop(
	'C05',
	'Generated download sessions (credentials with any printable characters, headers in any order, generated records, unused '
	'slots, also with records behind them, several downloads with one downloader; irregular: equal, close, distant and earlier times) answered by an in-process server below requests; the server\'s decoded '
	'requests and the resulting records are compared. Non-trivial: at least one record was transferred; for rejected responses '
	'every case.',
	[
		Sub('sessions', check_sessions, strategy, quick=800),
		Sub('many-records', check_many, lambda: st.tuples(st.integers(0, 120), st.sampled_from([1, 5, 30]),
			gen.minute_datetimes(last=datetime.datetime(2040, 1, 1))), quick=40),
		Sub('irregular', check_many, lambda: st.tuples(st.integers(2, 40), st.sampled_from([1, 5, 30, 60]), gen.minute_datetimes(datetime.datetime(2002, 1, 1),
			datetime.datetime(2040, 1, 1)), st.lists(st.sampled_from([0, 0, 1, 2, 5, 5, 5, 10, 30, 45, 60, 90, 1440, 50000, -1, -5, -60]), min_size=1, max_size=6)), quick=80),
		Sub('long', check_many, cases=lambda: [(n, m, datetime.datetime(2015, 12, 20)) for n, m in
			((255, 1), (256, 5), (257, 30), (512, 5), (1000, 60), (1024, 1), (2560, 5), (2561, 1), (5120, 10), (10240, 5))]),
		Sub('rejected', check_rejected, rejected, quick=600),
		Sub('lost', check_lost, lambda: st.tuples(session(gen.download_record(), 1), st.sampled_from(['headers', 'data'])), quick=100),
		Sub('required', check_required, cases=lambda: [
			(a, b, c) for a in ('u', '', None) for b in ('p', '', None) for c in ('t', '', None) if not (a and b and c)]),
	],
)
