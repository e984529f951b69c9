"""Database connections and cursors, also when operations fail."""
import datetime
from decimal import Decimal

import mysql.connector
from hypothesis import strategies as st

from checks.c21 import FIELDS
from checks.c26 import rows_of
from wlv import archive, codec, fakedb
from wlv.core import Prop, Sub
from wlv.fakedb import FaultPlan
from wlv.summaries import ARCHIVE, SCHEMA

from weatherlink.exporter.mysql import MySQLExporter

HISTORY = [(5, 3, 10), (5, 0, 0), (5, 1, 40), (200, 2, 7), (5, 0, 0), (600, 0, 0), (1440, 4, 2)]
OPERATIONS = ('export', 'newest', 'rain', 'summaries')


def prepared(operation):
	server = fakedb.FakeServer(SCHEMA)
	if operation != 'export':
		for row in rows_of(HISTORY):
			row.update(temperature_outside_high=row['rain_total'], wind_speed_high=4, wind_speed=3, wind_speed_direction='N')
			server.insert(ARCHIVE, row)
	return server


def run(exporter, operation):
	if operation == 'export':
		return exporter.export_record(archive.build(dict(FIELDS, date=datetime.datetime(2016, 5, 6, 7, 8))))
	if operation == 'newest':
		return exporter.get_newest_timestamp()
	if operation == 'rain':
		return exporter.find_new_rain_events()
	return exporter.recalculate_summaries_for_dates([r['timestamp_station'] for r in rows_of(HISTORY)])


def new_exporter():
	e = MySQLExporter('user', 'secret', 'weather', host='db.example', port=3307)
	e.station_time_zone = 'UTC'
	return e


_total = {}


def operations_of(operation):
	"""How many database operations it takes when nothing fails, and the final state."""
	if operation not in _total:
		server = prepared(operation)
		with fakedb.patched(server):
			e = new_exporter()
			e.connect()
			result = run(e, operation)
			e.disconnect()
		_total[operation] = server.fault.count, server.snapshot(), result
	return _total[operation]


def check_arguments(case, t):
	user, password, database, host, port = case
	server = fakedb.FakeServer(SCHEMA)
	with fakedb.patched(server):
		arguments = {}
		if host:
			arguments['host'] = host
		if port:
			arguments['port'] = port
		e = MySQLExporter(user, password, database, **arguments)
		e.connect()
		e.disconnect()
	got = server.connect_arguments[0]
	pick = lambda *names: [got[n] for n in names if n in got]  # noqa: E731
	t.eq(pick('user', 'username'), [user], 'user')
	t.eq(pick('password', 'passwd'), [password], 'password')
	t.eq(pick('database', 'db'), [database], 'database')
	t.eq(pick('host'), [host or '127.0.0.1'], 'host')
	t.eq(pick('port'), [port or 3306], 'port')
	t.nontrivial(bool(host and port))


BODIES = [KeyError, ValueError, OSError, AttributeError, RuntimeError, AssertionError, mysql.connector.errors.OperationalError, mysql.connector.errors.IntegrityError]


def check_faults(case, t):
	operation, position, kind, managed, close_fails, body_error = case
	total, final, expected = operations_of(operation)
	server = prepared(operation)
	server.fault = FaultPlan(1 + position % total, kind, close_fails)
	raised = None
	from_body = BODIES[(position + len(kind)) % len(BODIES)]('from the body')
	with fakedb.patched(server):
		e = new_exporter()
		try:
			if managed:
				with e:
					run(e, operation)
					if body_error:
						raise from_body
			else:
				e.connect()
				try:
					run(e, operation)
				except Exception as x:
					raised = x
				t.check(not server.open_cursors_but_unread(), 'a cursor is still open after %s', operation)
				try:
					e.disconnect()
				except Exception as x:
					raised = raised or x
		except Exception as x:
			raised = x
		if server.fault.fired:
			t.check(raised is not None, 'the failure of %s was swallowed', server.fault.log[server.fault.at - 1])
			if server.fault.log[server.fault.at - 1] == 'close' and body_error and managed:
				t.check(raised is from_body, 'the error of the with block was replaced by %r', raised)
			elif managed or server.fault.log[server.fault.at - 1] != 'close':
				t.check(raised is server.fault.error, 'the failure was %r, but the caller sees %r', server.fault.error, raised)
		elif managed and body_error:
			t.check(raised is from_body, 'the error of the with block was replaced by %r', raised)
		t.check(not server.open_connections(), 'a connection is still open')
		server.fault = FaultPlan()
		with t.sut('disconnecting when disconnected'):
			e.disconnect()
		exported = operation == 'export' and bool(server.rows(ARCHIVE))
		if not exported:
			with t.sut('%s after a failure' % operation):
				e.connect()
				result = run(e, operation)
				e.disconnect()
			if operation == 'newest':
				t.eq(result, expected, 'newest timestamp after a failure')
	t.check(server.snapshot() == final, 'after a failure and a repetition of %s the database differs', operation)
	t.check(not server.open_connections() and not server.open_cursors_but_unread(), 'a connection or cursor is still open')
	t.label(operation, kind)
	t.nontrivial(raised is not None)


def far(k):
	"""A dry record outside of everything else."""
	return archive.build(dict(FIELDS, date=datetime.datetime(2001, 5, 6, 7, 8 + k), rain_amount_clicks=0, rain_rate_clicks=0))


def check_continued(case, t):
	"""After a failure the same connection is used for another record, which is committed, and then for the operation again."""
	operation, position, kind, between = case
	total, _, expected = operations_of(operation)
	server, probe = prepared(operation), prepared(operation)
	with fakedb.patched(probe):
		e = new_exporter()
		e.connect()
		for k in range(between):
			e.export_record(far(k))
		none = probe.snapshot()
		run(e, operation)
		e.disconnect()
	final = probe.snapshot()
	server.fault = FaultPlan(2 + position % (total - 2), kind)  # neither connecting nor disconnecting
	raised = None
	with fakedb.patched(server):
		e = new_exporter()
		e.connect()
		try:
			run(e, operation)
		except Exception as x:
			raised = x
		failed = server.fault.log[server.fault.at - 1] if server.fault.fired else None
		server.fault = FaultPlan()
		if raised is None or failed.startswith('fetch') or failed == 'rollback':
			e.disconnect()
			return
		with t.sut('export_record after a failure to %s' % failed):
			for k in range(between):
				e.export_record(far(k))
		if operation == 'export' and failed != 'cursor.close':
			t.check(between == 0 or server.snapshot() == none, 'what failed to %s was stored with the next record', failed)
		if not (operation == 'export' and server.snapshot() == final):
			with t.sut('%s again on the same connection after a failure to %s' % (operation, failed)):
				result = run(e, operation)
			if operation == 'newest':
				t.eq(result, expected, 'newest timestamp after a failure')
		e.disconnect()
	t.check(server.snapshot() == final, 'after a failure to %s and a repetition of %s on the same connection the database differs', failed, operation)
	t.check(not server.open_connections() and not server.open_cursors_but_unread(), 'a connection or cursor is still open')
	t.label(operation, 'failed to %s' % failed.split(' ')[0])
	t.nontrivial(between > 0)


REFUSED = {
	'duplicate': lambda e: dict(FIELDS, date=datetime.datetime(2001, 5, 6, 7, 0)),
	'out of range': lambda e: dict(FIELDS, date=datetime.datetime(2001, 5, 7), temperature_outside=Decimal('123456.7')),
	'negative': lambda e: dict(FIELDS, date=datetime.datetime(2001, 5, 7), humidity_outside=-4),
	'no such table': lambda e: setattr(e, 'archive_table_name', 'missing') or dict(FIELDS, date=datetime.datetime(2001, 5, 7)),
	'no such column': lambda e: setattr(e, 'archive_table_column_map', dict(e.DEFAULT_ARCHIVE_TABLE_COLUMN_MAP, wind_speed='missing')) or dict(FIELDS, date=datetime.datetime(2001, 5, 7)),
}


def check_refused(case, t):
	"""What the database itself refuses is reported to the caller and leaves nothing behind."""
	kind, after, managed = case
	server = fakedb.FakeServer(SCHEMA)
	with fakedb.patched(server):
		e = new_exporter()
		e.connect()
		e.export_record(archive.build(dict(FIELDS, date=datetime.datetime(2001, 5, 6, 7, 0))))
		before = server.snapshot()
		measured = REFUSED[kind](e)

		def export():
			if managed:
				e.disconnect()
				with e:
					e.export_record(archive.build(measured))
			else:
				e.export_record(archive.build(measured))
		error = t.raises('exporting a record that the database refuses (%s)' % kind, Exception, export)
		t.check(isinstance(error, mysql.connector.errors.Error), 'the caller sees %r instead of the error of the database', error)
		t.check(server.snapshot() == before, 'the refused record left something behind')
		t.check(not server.open_cursors_but_unread(), 'a cursor is still open')
		e.archive_table_name = e.archive_table_column_map = None
		if managed:
			t.check(not server.open_connections(), 'a connection is still open')
			e.connect()
		with t.sut('export_record after a refused one'):
			for k in range(after):
				e.export_record(archive.build(dict(FIELDS, date=datetime.datetime(2001, 6, 6, 7, k))))
		t.eq(len(server.rows(ARCHIVE)), 1 + after, 'archive records')
		e.disconnect()
	t.label(kind)
	t.nontrivial()


def check_histories(case, t):
	"""Several operations on one exporter, with reconnections: nothing stays open, results stay right."""
	server = fakedb.FakeServer(SCHEMA)
	exported = []
	history = list(rows_of(HISTORY))
	inserted = []
	with fakedb.patched(server):
		e = new_exporter()
		e.connect()
		for action in case:
			if action == 'reconnect':
				with t.sut('disconnect and connect'):
					e.disconnect()
					e.disconnect()
					t.check(not server.open_connections(), 'the connection is still open after disconnect')
					e.connect()
			elif action == 'insert' and history:
				row = history.pop(0)
				server.insert(ARCHIVE, row)
				inserted.append(row)
			elif action == 'export':
				record = archive.build(dict(FIELDS, date=datetime.datetime(2012, 5, 6, 7, len(exported))))
				with t.sut('export_record'):
					e.export_record(record)
				exported.append(record)
			elif action == 'newest':
				with t.sut('get_newest_timestamp'):
					result = e.get_newest_timestamp()
				known = [codec.timestamp(r['timestamp_station']) for r in inserted] + [r['timestamp'] for r in exported]
				t.eq(result, max(known) if known else None, 'newest timestamp')
			elif action == 'rain':
				with t.sut('find_new_rain_events'):
					e.find_new_rain_events()
			elif action == 'summaries':
				with t.sut('recalculate_summaries_for_dates'):
					e.recalculate_summaries_for_dates([r['timestamp_station'] for r in inserted[-2:]])
			t.check(not server.open_cursors(), 'a cursor is still open after %s', action)
			t.eq(len(server.open_connections()), 1, 'open connections after %s' % action)
			t.check(server.open_connections()[0].unread is None, 'unread rows are left after %s', action)
		e.disconnect()
	t.check(not server.open_connections(), 'a connection is still open')
	t.eq(len(server.rows(ARCHIVE)), len(exported) + len(inserted), 'archive rows')
	t.nontrivial(len(set(case)) >= 3)


def strategy():
	return st.tuples(st.sampled_from(OPERATIONS), st.integers(0, 10 ** 6), st.sampled_from(['lost', 'broken', 'statement', 'error', 'interface']), st.booleans(),
		st.booleans(), st.booleans())


PROPERTY = Prop(
	'C28',
	'Every kind of operation with a failure at a random database operation (connecting, executing, fetching, committing, closing), '
	'with and without the context manager, closing failing as well; and histories of operations with reconnections. The caller must '
	'see the original error, nothing may stay open, repeating must succeed, on a new connection or the same one, and nothing unfinished may be committed with later records; so with records the database refuses (duplicates, values out of range, unknown names). Non-trivial: an error reached the caller; at '
	'least three kinds of actions.',
	[
		Sub('faults', check_faults, strategy, quick=700),
		Sub('continued', check_continued, lambda: st.tuples(st.sampled_from(OPERATIONS + ('export', )), st.integers(0, 10 ** 6),
			st.sampled_from(['statement', 'error', 'interface']), st.integers(0, 2)), quick=400),
		Sub('refused', check_refused, lambda: st.tuples(st.sampled_from(sorted(REFUSED)), st.integers(0, 2), st.booleans()), quick=100),
		Sub('histories', check_histories, lambda: st.lists(st.sampled_from(['reconnect', 'insert', 'insert', 'export', 'newest', 'rain', 'summaries']),
			min_size=2, max_size=12), quick=200),
		Sub('arguments', check_arguments, lambda: st.tuples(st.text('abz1', min_size=1, max_size=5), st.text('p&\'" \\', min_size=1, max_size=5),
			st.text('abz', min_size=1, max_size=5), st.sampled_from([None, 'db', '10.0.0.1']), st.sampled_from([None, 3307, 1])), quick=100),
	],
	['The database double stands for mysql.connector with unbuffered cursors.'],
)
