"""What the MySQL exporter stores for a record."""
import datetime

import mysql.connector.errors
from hypothesis import strategies as st

from wlv import archive, codec, fakedb
from wlv.core import Prop, Sub

from weatherlink import utils
from weatherlink.exporter.mysql import COLUMN_MAP_DO_NOT_INSERT, MySQLExporter

SCHEMA = fakedb.repository_schema()
TABLE = 'weather_archive_record'


def prepared(case):
	"""The record for a case (keys listed in `absent` are removed)."""
	case = dict(case)
	absent = case.pop('absent', ())
	return strip(archive.build(case), absent)


def strip(record, absent):
	for k in absent:
		record.pop(k, None)
		if k == 'rain_amount_clicks':
			record.pop('rain_amount', None)
		if k == 'rain_rate_clicks':
			record.pop('rain_rate', None)
	return record


# time zones without daylight saving time since 1970, and their hours (C21 is about the others)
ZONES = {'UTC': 0, 'Asia/Kolkata': 5.5, 'Etc/GMT+7': -7, 'Etc/GMT-12': 12, 'America/Phoenix': -7, 'Pacific/Honolulu': -10}


def expected_row(record, zone='UTC'):
	values = {}
	for attribute, column in archive.SIMPLE.items():
		values[column] = record.get(attribute)
	for attribute, column in archive.DIRECTIONS.items():
		value = record.get(attribute)
		values[column] = None if value is None else codec.DIRECTIONS[value.value]
	d = record['date']
	values.update(timestamp_utc=d - datetime.timedelta(hours=ZONES[zone]), summary_year=d.year, summary_month=d.month, summary_day=d.day)
	derived = utils.calculate_all_record_values(record)
	for k in archive.CALCULATED:
		values[k] = derived.get(k)
	return {k: archive.stored(SCHEMA[TABLE], k, v) for k, v in values.items()}


def read(server, table=TABLE, order='timestamp_weatherlink'):
	return server.rows(table, order)


def exporter_for(server, zone='UTC'):
	exporter = MySQLExporter('user', 'secret', 'weather')
	exporter.station_time_zone = zone
	exporter.connect()
	return exporter


def compare(t, row, expected, what):
	for column, value in expected.items():
		t.eq(row[column], value, '%s: column %s' % (what, column))


def check_rows(case, t):
	case, zone = case
	records = [prepared(c) for c in case]
	expected = {r['timestamp']: expected_row(r, zone) for r in records}
	server = fakedb.FakeServer(SCHEMA)
	with fakedb.patched(server):
		exporter = exporter_for(server, zone)
		for r in records:
			with t.sut('export_record'):
				exporter.export_record(r)
		exporter.disconnect()
	rows = read(server)
	t.eq(len(rows), len(records), 'number of rows after disconnecting')
	for row in rows:
		t.check(row['timestamp_weatherlink'] in expected, 'a row has the timestamp %s, which no record has', row['timestamp_weatherlink'])
		compare(t, row, expected[row['timestamp_weatherlink']], 'record of %s' % row['timestamp_station'])
	t.label('%d records' % len(records))
	t.nontrivial(any(sum(v is not None for v in row.values()) >= 30 for row in rows))


def unique_records(minimum=1, maximum=3):
	one = st.tuples(archive.fields(), st.one_of(st.just(()), st.lists(st.sampled_from(archive.OPTIONAL), max_size=3, unique=True)))
	one = one.map(lambda x: dict(x[0], absent=[k for k in x[1] if k not in ('rain_amount', 'rain_rate')]))
	return st.lists(one, min_size=minimum, max_size=maximum, unique_by=lambda r: r['date'])


def check_custom(case, t):
	"""Another table with other column names; some attributes left out."""
	records, name, prefix, skipped, forgotten = case
	names = {}  # default column: custom column
	tables = dict(SCHEMA)
	default = SCHEMA[TABLE]
	columns = []
	for c in default.columns:
		custom = c.name if c.name == 'record_id' else prefix + c.name
		names[c.name] = custom
		columns.append(fakedb.Column(custom, c.kind, c.args, c.unsigned, c.not_null, c.auto))
	uniques = [[names[c] for c in u] for u in default.uniques]
	tables[name] = fakedb.Table(name, columns, uniques)
	column_map = {k: prefix + v for k, v in MySQLExporter.DEFAULT_ARCHIVE_TABLE_COLUMN_MAP.items()}
	for attribute in skipped:
		# also a name that is only equal, as when the map was read from a file
		column_map[attribute] = COLUMN_MAP_DO_NOT_INSERT if len(attribute) % 2 else ''.join(list(COLUMN_MAP_DO_NOT_INSERT))
	for attribute in forgotten:
		column_map.pop(attribute, None)
	unstored = {MySQLExporter.DEFAULT_ARCHIVE_TABLE_COLUMN_MAP[a] for a in list(skipped) + list(forgotten)}
	records = [prepared(c) for c in records]
	server = fakedb.FakeServer(tables)
	with fakedb.patched(server):
		exporter = MySQLExporter('user', 'secret', 'weather')
		exporter.station_time_zone = 'UTC'
		exporter.archive_table_name = name
		exporter.archive_table_column_map = column_map
		exporter.connect()
		for r in records:
			with t.sut('export_record'):
				exporter.export_record(r)
		exporter.disconnect()
	t.eq(len(server.rows(TABLE)), 0 if name != TABLE else len(records), 'rows in the default table')
	rows = {r[prefix + 'timestamp_weatherlink']: r for r in server.rows(name)}
	t.eq(len(rows), len(records), 'rows in the custom table')
	for r in records:
		expected = {names[k]: (None if k in unstored else v) for k, v in expected_row(r).items()}
		compare(t, rows[r['timestamp']], expected, 'record of %s' % r['date'])
	t.label('%d attributes not stored' % len(unstored))
	t.nontrivial(bool(unstored))


def custom():
	optional = archive.OPTIONAL + [c for c in archive.CALCULATED]
	return st.tuples(
		unique_records(1, 2),
		st.sampled_from(['my_archive', 'archive2']),
		st.sampled_from(['x_', 'c']),
		st.lists(st.sampled_from(optional), max_size=5, unique=True),
		st.lists(st.sampled_from(list(archive.CALCULATED)), max_size=2, unique=True),
	)


def check_duplicates(case, t):
	records, order = case
	server = fakedb.FakeServer(SCHEMA)
	model = {}
	with fakedb.patched(server):
		exporter = exporter_for(server)
		for k, variant in order:
			source = dict(records[k % len(records)])
			if variant:
				source['temperature_inside'] = None
			record = prepared(source)
			if record['timestamp'] in model:
				t.raises('exporting a second record with the same timestamp', mysql.connector.errors.IntegrityError,
					exporter.export_record, record)
				t.label('rejected duplicate')
				t.nontrivial()
			else:
				with t.sut('export_record'):
					exporter.export_record(record)
				model[record['timestamp']] = expected_row(record)
		exporter.disconnect()
	rows = read(server)
	t.eq([r['timestamp_weatherlink'] for r in rows], sorted(model), 'stored timestamps')
	for row in rows:
		compare(t, row, model[row['timestamp_weatherlink']], 'record of %s' % row['timestamp_station'])


def check_many(case, t):
	"""Hundreds of records through one exporter, connected one or several times."""
	from checks.c21 import FIELDS
	count, reconnect, step, seed = case
	server = fakedb.FakeServer(SCHEMA)
	expected = []
	when = datetime.datetime(2015, 12, 20)
	with fakedb.patched(server):
		exporter = exporter_for(server)
		for k in range(count):
			when += datetime.timedelta(minutes=step)
			record = archive.build(dict(FIELDS, date=when, wind_speed=(k + seed) % 60, rain_amount_clicks=k % 7, humidity_inside=k % 101))
			if reconnect and k and k % reconnect == 0:
				exporter.disconnect()
				exporter.connect()
			with t.sut('export_record'):
				exporter.export_record(record)
			expected.append(expected_row(record))
		exporter.disconnect()
	rows = read(server)
	t.eq(len(rows), count, 'number of rows')
	for row, e in zip(rows, expected):
		compare(t, row, e, 'record of %s' % row['timestamp_station'])
	t.nontrivial()


PROPERTY = Prop(
	'C20',
	'Generated records (fields missing, zero and at boundaries), table and column names, and export histories with repeated '
	'timestamps; the rows in a database double that converts values as MySQL\'s strict mode does are compared with the record '
	'column by column. Non-trivial: a row with at least 30 values; attributes left out; a duplicate rejected.',
	[
		Sub('rows', check_rows, lambda: st.tuples(unique_records(), st.sampled_from(sorted(ZONES))), quick=700),
		Sub('custom', check_custom, custom, quick=300),
		Sub('duplicates', check_duplicates, lambda: st.tuples(unique_records(1, 3),
			st.lists(st.tuples(st.integers(0, 2), st.booleans()), min_size=2, max_size=6)), quick=250),
		Sub('many', check_many, cases=lambda: [(600, 0, 5, 3), (257, 100, 1, 40), (300, 1, 60, 5)]),
	],
	['The database double stands for MySQL in strict mode; derived values are compared with the library\'s own derivation, which C19 judges.'],
)
