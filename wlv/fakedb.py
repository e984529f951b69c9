"""
An in-memory stand-in for a MySQL server and mysql.connector, good enough to judge what the exporter stores.

Schema: parsed from the repository's own mysql.sql. Storage: sqlite, with every stored value converted the way MySQL in
strict mode would (DECIMAL/integer rounding half away from zero, UNSIGNED and range errors, ENUM membership, NOT NULL,
unique keys, DATETIME/DATE/TIME). Connector: unbuffered cursors that refuse any other statement while rows are unread,
TIME columns returned as timedelta, autocommit off, uncommitted work lost on close. Faults can be injected at the n-th
connector operation.
"""
import datetime
import decimal
import os
import re
import sqlite3

import mysql.connector
from mysql.connector import errors

from wlv import env, mysqlsql
from wlv.core import HarnessError

MAX_OPERATIONS = 100000

_TYPES = r'(bigint|int|tinyint|smallint|mediumint|decimal|datetime|date|time|year|enum|varchar)'


class Column(object):
	def __init__(self, name, kind, args, unsigned, not_null, auto):
		self.name, self.kind, self.args = name, kind, args
		self.unsigned, self.not_null, self.auto = unsigned, not_null, auto


class Table(object):
	def __init__(self, name, columns, uniques):
		self.name, self.columns, self.uniques = name, columns, uniques


def parse_schema(sql):
	sql = re.sub(r'--[^\n]*', '', sql)
	tables = {}
	for name, body in re.findall(r'CREATE TABLE (?:IF NOT EXISTS )?`?(\w+)`? \((.*?)\n\)[^;]*;', sql, re.S | re.I):
		columns, uniques = [], []
		for line in body.split('\n'):
			line = line.strip().rstrip(',')
			m = re.match(r'`(\w+)` ' + _TYPES + r'\b(?:\((.*?)\))?(.*)$', line, re.I)
			if m:
				rest = re.sub(r"COMMENT '.*'$", '', m.group(4)).lower()
				kind = m.group(2).lower()
				args = m.group(3) or ''
				if kind == 'enum':
					args = re.findall(r"'([^']*)'", args)
				elif args:
					args = [int(a) for a in args.split(',')]
				columns.append(Column(m.group(1), kind, args, 'unsigned' in rest, 'not null' in rest, 'auto_increment' in rest))
				continue
			m = re.match(r'(?:UNIQUE (?:INDEX|KEY)|PRIMARY KEY)[^(]*\((.*)\)$', line, re.I)
			if m:
				uniques.append(re.findall(r'`(\w+)`', m.group(1)))
		tables[name] = Table(name, columns, uniques)
	return tables


def repository_schema():
	with open(os.path.join(env.REPO, 'weatherlink', 'exporter', 'mysql.sql'), encoding='utf8') as f:
		return parse_schema(f.read())


_INT_BITS = {'tinyint': 8, 'smallint': 16, 'mediumint': 24, 'int': 32, 'bigint': 64}


def _to_decimal(value):
	if isinstance(value, bool):
		return decimal.Decimal(int(value))
	if isinstance(value, int):
		return decimal.Decimal(value)
	if isinstance(value, float):
		return decimal.Decimal(repr(value))
	if isinstance(value, str):
		try:
			return decimal.Decimal(value.strip())
		except decimal.InvalidOperation:
			return None
	return None


_CONTEXT = decimal.Context(prec=60, rounding=decimal.ROUND_HALF_UP)


def convert(column, value):
	"""The value MySQL (strict mode) would store, in sqlite representation; raises mysql.connector errors."""
	if value is None:
		if column.not_null:
			raise errors.IntegrityError("Column '%s' cannot be null" % column.name, errno=1048)
		return None
	kind = column.kind
	if kind in _INT_BITS or kind in ('decimal', 'year'):
		d = _to_decimal(value)
		if d is None or not d.is_finite():
			raise errors.DatabaseError("Incorrect %s value: '%s' for column '%s'" % (kind, value, column.name), errno=1366)
		places = 0
		if kind == 'decimal':
			precision, places = column.args if len(column.args) == 2 else (column.args[0], 0)
			limit = decimal.Decimal(10) ** (precision - places)
		d = d.quantize(decimal.Decimal(1).scaleb(-places), context=_CONTEXT)
		if kind == 'decimal':
			low, high = (0 if column.unsigned else -limit, limit)
			bad = d < low or d >= high or d <= -limit
		elif kind == 'year':
			bad = d != 0 and not 1901 <= d <= 2155
		else:
			bits = _INT_BITS[kind]
			low, high = (0, (1 << bits) - 1) if column.unsigned else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
			bad = d < low or d > high
		if bad:
			raise errors.DataError("Out of range value for column '%s' (%s)" % (column.name, value), errno=1264)
		return float(d) if kind == 'decimal' else int(d)
	text = value if isinstance(value, str) else None
	if kind == 'enum':
		if text is None or text not in column.args:
			raise errors.DataError("Data truncated for column '%s' (%r)" % (column.name, value), errno=1265)
		return text
	if kind == 'datetime':
		if text and re.match(r'\d{4}-\d\d-\d\d$', text):
			text += ' 00:00:00'
		m = text and re.match(r'(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)(\.\d+)?$', text)
		if not m:
			raise errors.DataError("Incorrect datetime value: '%s' for column '%s'" % (value, column.name), errno=1292)
		if m.group(2) and m.group(2) >= '.5':  # MySQL rounds to the column's whole seconds
			d = datetime.datetime.strptime(m.group(1), '%Y-%m-%d %H:%M:%S') + datetime.timedelta(seconds=1)
			return d.strftime('%Y-%m-%d %H:%M:%S')
		return m.group(1)
	if kind == 'date':
		m = text and re.match(r'(\d{4}-\d\d-\d\d)( \d\d:\d\d:\d\d.*)?$', text)
		if not m:
			raise errors.DataError("Incorrect date value: '%s' for column '%s'" % (value, column.name), errno=1292)
		return m.group(1)
	if kind == 'time':
		m = text and re.match(r'(?:\d{4}-\d\d-\d\d )?(-?\d{1,3}:\d\d:\d\d)(\.\d+)?$', text)
		if not m:
			raise errors.DataError("Incorrect time value: '%s' for column '%s'" % (value, column.name), errno=1292)
		return m.group(1)
	if kind == 'varchar':
		return str(value)
	raise HarnessError('unsupported column type %s' % kind)


def from_sqlite(value):
	"""What the connector returns for a stored value (typed by representation: floats are DECIMALs)."""
	if isinstance(value, float):
		return decimal.Decimal(repr(round(value, 10)))  # sqlite's arithmetic is binary, MySQL's decimal
	if isinstance(value, str):
		if re.match(r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d$', value):
			return datetime.datetime.strptime(value, '%Y-%m-%d %H:%M:%S')
		if re.match(r'\d{4}-\d\d-\d\d$', value):
			return datetime.datetime.strptime(value, '%Y-%m-%d').date()
		m = re.match(r'(-?)(\d{1,3}):(\d\d):(\d\d)$', value)
		if m:
			d = datetime.timedelta(hours=int(m.group(2)), minutes=int(m.group(3)), seconds=int(m.group(4)))
			return -d if m.group(1) else d
	return value


def to_sqlite(value):
	"""The literal the connector would send for a Python parameter, as an sqlite parameter."""
	if value is None or isinstance(value, (int, str)) and not isinstance(value, bool):
		return value
	if isinstance(value, bool):
		return int(value)
	if isinstance(value, float):
		return value
	if isinstance(value, decimal.Decimal):
		return float(value)
	if isinstance(value, datetime.datetime):
		return value.strftime('%Y-%m-%d %H:%M:%S' + ('.%f' if value.microsecond else ''))
	if isinstance(value, datetime.date):
		return value.strftime('%Y-%m-%d')
	if isinstance(value, datetime.time):
		return value.strftime('%H:%M:%S')
	if isinstance(value, datetime.timedelta):
		seconds = int(value.total_seconds())
		sign, seconds = ('-', -seconds) if seconds < 0 else ('', seconds)
		return '%s%02d:%02d:%02d' % (sign, seconds // 3600, seconds // 60 % 60, seconds % 60)
	if isinstance(value, bytes):
		return value.decode('utf8')
	raise errors.ProgrammingError("Python '%s' cannot be converted to a MySQL type" % type(value).__name__.lower())


class _Sum(object):
	def __init__(self):
		self.total, self.count = decimal.Decimal(0), 0

	def step(self, value):
		if value is not None:
			self.total += decimal.Decimal(repr(value))
			self.count += 1

	def finalize(self):
		return float(self.total) if self.count else None


class _Avg(_Sum):
	def finalize(self):
		if not self.count:
			return None
		return float((self.total / self.count).quantize(decimal.Decimal('0.0000001'), context=_CONTEXT))


class FaultPlan(object):
	"""Raises at the n-th connector operation (1-based); with `close_fails`, closing the connection raises, too."""

	def __init__(self, at=None, kind='lost', close_fails=False):
		self.at, self.kind, self.close_fails = at, kind, close_fails
		self.error = None
		self.count = 0
		self.fired = False
		self.log = []


class FakeServer(object):
	def __init__(self, tables=None, lasting=0):
		self.lasting = lasting  # how summaries.using() uses exporters
		self.exporter = None
		self.connected = False
		self.tables = tables if tables is not None else repository_schema()
		self.db = sqlite3.connect(':memory:', isolation_level=None, check_same_thread=False, cached_statements=512)
		self.connections = []
		self.connect_arguments = []
		self.statements = 0
		self.fault = FaultPlan()
		self.error = None
		self.pending = None  # the connection with an open transaction
		self.db.create_aggregate('avg', 1, _Avg)
		self.db.create_aggregate('sum', 1, _Sum)
		mysqlsql.register(self.db)
		self.db.create_function('mysql_store', 3, self._store)
		self.db.create_function('last_insert_id', -1, self._last_insert_id)
		self.chosen_id = None  # by LAST_INSERT_ID(value) in the current statement
		self.last_id = 0
		self.store_error = None
		self.kinds = {c.name: c.kind for t in self.tables.values() for c in t.columns}
		for table in self.tables.values():
			self._create(table)

	def _store(self, table, column, value):
		"""The result of an expression, as the column stores it."""
		for c in self.tables[table].columns:
			if c.name == column:
				try:
					return convert(c, value)
				except Exception as e:
					self.store_error = e
					raise

	def _last_insert_id(self, *value):
		if value:
			self.chosen_id = self.last_id = value[0]
		return self.last_id

	def _create(self, table):
		parts = []
		for c in table.columns:
			if c.auto:
				parts.append('`%s` INTEGER PRIMARY KEY AUTOINCREMENT' % c.name)
			else:
				parts.append('`%s` BLOB' % c.name)
		for u in table.uniques:
			if u != [c.name for c in table.columns if c.auto]:
				parts.append('UNIQUE (%s)' % ', '.join('`%s`' % c for c in u))
		self.db.execute('CREATE TABLE `%s` (%s)' % (table.name, ', '.join(parts)))

	# -- direct access for harness and oracle (bypasses the connector)
	def rows(self, table, order=None):
		t = self.tables[table]
		names = [c.name for c in t.columns]
		cursor = self.db.execute('SELECT %s FROM `%s`%s' % (', '.join('`%s`' % n for n in names), table,
			' ORDER BY %s' % order if order else ''))
		out = []
		for r in cursor.fetchall():
			out.append({n: from_sqlite(v) for n, v in zip(names, r)})
		return out

	def insert(self, table, values):
		t = self.tables[table]
		row = {}
		for c in t.columns:
			if c.auto:
				continue
			row[c.name] = convert(c, to_sqlite_exact(values.get(c.name)))
		self.db.execute('INSERT INTO `%s` (%s) VALUES (%s)' % (table, ', '.join('`%s`' % k for k in row), ', '.join('?' * len(row))),
			list(row.values()))

	def snapshot(self, ignore=('record_id', 'summary_id', 'event_id')):
		out = {}
		for name in self.tables:
			rows = [tuple(sorted((k, repr(v)) for k, v in r.items() if k not in ignore)) for r in self.rows(name)]
			out[name] = sorted(rows)
		return out

	def close(self):
		self.db.close()

	# -- connector
	def connect(self, *args, **kwargs):
		kwargs = dict(kwargs)
		self.connect_arguments.append(kwargs)
		connection = FakeConnection(self)
		connection._autocommit = bool(kwargs.get('autocommit'))
		connection._operation('connect')
		self.connections.append(connection)
		return connection

	def open_connections(self):
		return [c for c in self.connections if not c.closed]

	def open_cursors(self):
		return [k for c in self.connections for k in c.cursors if not k.closed]

	def open_cursors_but_unread(self):
		"""Cursors that are open although closing them was possible."""
		return [k for k in self.open_cursors() if not k.close_failed and not k.connection.closed]


def to_sqlite_exact(value):
	"""As to_sqlite, but keeps Decimals exact for conversion."""
	if isinstance(value, decimal.Decimal):
		return str(value)
	return to_sqlite(value)


class FakeConnection(object):
	def __init__(self, server):
		self.server = server
		self.closed = False
		self.close_error = None
		self.lost = False
		self.cursors = []
		self.unread = None  # the cursor with unread rows
		self._autocommit = False
		self._explicit = False  # a transaction was started explicitly

	def _operation(self, name):
		s = self.server
		s.statements += 1
		if s.statements > MAX_OPERATIONS:
			raise HarnessRunaway('more than %d database operations' % MAX_OPERATIONS)
		f = s.fault
		f.count += 1
		f.log.append(name)
		if self.lost and name != 'close':
			if f.kind == 'broken':
				raise AttributeError("'NoneType' object has no attribute 'sendall'")
			raise errors.OperationalError('MySQL Connection not available.', errno=2055)
		if f.at is not None and f.count == f.at and not f.fired:
			f.fired = True
			if f.kind in ('lost', 'committed', 'broken'):
				if f.kind == 'committed' and name == 'commit' and s.pending is self:
					s.db.execute('COMMIT')  # only the answer is lost
					s.pending = None
				self._rollback()
				self.lost = True
				f.error = errors.OperationalError('2013: Lost connection to MySQL server during query', errno=2013)
			elif f.kind == 'interface':
				f.error = errors.InterfaceError('2055: the server closed the connection', errno=2055)
			elif f.kind == 'statement':
				f.error = errors.DatabaseError('1205 (HY000): Lock wait timeout exceeded', errno=1205)
			else:
				f.error = InjectedError('injected at %s' % name)
			raise f.error
		if name == 'close' and f.close_fails:
			raise errors.OperationalError('closing the connection failed', errno=2013)

	def _alive(self):
		if self.lost and self.server.fault.kind == 'broken':
			raise AttributeError("'NoneType' object has no attribute 'sendall'")
		if self.closed or self.lost:
			raise errors.OperationalError('MySQL Connection not available.', errno=2055)

	def _check_unread(self):
		if self.unread is not None:
			raise errors.InternalError('Unread result found')

	def _begin(self):
		s = self.server
		if s.pending is None:
			s.db.execute('BEGIN')
			s.pending = self
		elif s.pending is not self:
			raise HarnessError('two connections with open transactions are not supported')

	def _written(self):
		"""After a statement that wrote: commits on its own if the connection is in autocommit mode."""
		if self._autocommit and not self._explicit and self.server.pending is self:
			self.server.db.execute('COMMIT')
			self.server.pending = None

	@property
	def autocommit(self):
		return self._autocommit

	@autocommit.setter
	def autocommit(self, value):
		self._alive()
		if value and not self._autocommit and self.server.pending is self:  # as MySQL: switching it on commits
			self.server.db.execute('COMMIT')
			self.server.pending = None
		self._autocommit = bool(value)

	def _rollback(self):
		self._explicit = False
		if self.server.pending is self:
			self.server.db.execute('ROLLBACK')
			self.server.pending = None

	def cursor(self, buffered=None, raw=None, prepared=None, cursor_class=None, dictionary=None, read_timeout=None, write_timeout=None):
		if raw or cursor_class:
			raise HarnessError('raw cursors and cursor classes are not supported')
		self._alive()
		self._operation('cursor')
		self._check_unread()
		c = FakeCursor(self, bool(buffered), bool(dictionary))
		self.cursors.append(c)
		return c

	def commit(self):
		self._alive()
		self._operation('commit')
		self._check_unread()
		self._explicit = False
		if self.server.pending is self:
			self.server.db.execute('COMMIT')
			self.server.pending = None

	def rollback(self):
		self._alive()
		self._operation('rollback')
		self.unread = None
		self._rollback()

	def close(self):
		if self.closed:
			if self.close_error:
				raise self.close_error
			return
		self.closed = True
		self.unread = None
		self._rollback()
		try:
			self._operation('close')
		except Exception as e:
			self.close_error = e
			raise

	disconnect = close
	shutdown = close

	def start_transaction(self, *args, **kwargs):
		self._alive()
		if self._explicit or self.server.pending is self:
			raise errors.ProgrammingError('Transaction already in progress')
		self._operation('start_transaction')
		self._explicit = True
		self._begin()

	@property
	def unread_result(self):
		return self.unread is not None

	def consume_results(self):
		if self.unread is not None:
			self.unread._position = len(self.unread._rows)
			self.unread = None

	handle_unread_result = _check_unread

	@property
	def in_transaction(self):
		return self.server.pending is self

	def is_connected(self):
		return not self.closed and not self.lost

	def ping(self, reconnect=False, attempts=1, delay=0):
		self._alive()

	def __enter__(self):
		return self

	def __exit__(self, *_):
		self.close()

	def __getattr__(self, name):
		raise HarnessError('FakeConnection does not support %s' % name)


class InjectedError(Exception):
	pass


class HarnessRunaway(Exception):
	"""Raised through the library when it issues an unbounded number of operations."""


class FakeCursor(object):
	def __init__(self, connection, buffered, dictionary):
		self.connection = connection
		self.buffered, self.dictionary = buffered, dictionary
		self.closed = False
		self.close_failed = False  # closing was tried, but failed
		self.lastrowid = None
		self.rowcount = -1
		self.description = None
		self.statement = None
		self._rows, self._position, self._fetched = None, 0, False

	@property
	def with_rows(self):
		return self._rows is not None

	@property
	def column_names(self):
		return tuple(d[0] for d in self.description or ())

	def execute(self, operation, params=(), map_results=False):
		statement = operation
		if self.closed:
			raise errors.ProgrammingError('Cursor is not connected', errno=2055)
		self.connection._alive()
		if not statement:
			return None
		if isinstance(statement, bytes):
			statement = statement.decode('utf8')
		self.connection._operation('execute')
		self.connection._check_unread()
		self._rows, self._position, self._fetched = None, 0, False
		self.statement = statement
		sql, values = self._translate(statement, params)
		server = self.connection.server
		try:
			plan = mysqlsql.plan_for(sql)
		except mysqlsql.Syntax as e:
			raise errors.ProgrammingError('You have an error in your SQL syntax near %s' % e, errno=1064)
		except mysqlsql.Unsupported as e:
			raise HarnessError('unsupported SQL: %s: %s' % (e, statement))
		word = plan.kind
		sql = plan.sql
		if word in ('INSERT', 'UPDATE', 'DELETE'):
			self.connection._begin()
		if word in ('INSERT', 'UPDATE', 'DELETE', 'SELECT'):
			values = self._bind(server, plan, values)
		elif word in ('COMMIT', ):
			self.connection.commit()
			return None
		elif word in ('ROLLBACK', ):
			self.connection.rollback()
			return None
		elif word in ('START', 'BEGIN'):
			self.connection._written()
			if server.pending is self.connection:  # as MySQL: commits what was open
				server.db.execute('COMMIT')
				server.pending = None
			self.connection._begin()
			self.connection._explicit = True
			return None
		elif word == 'SET':
			m = re.match(r'SET\s+(?:SESSION\s+|@@(?:session\.)?)?autocommit\s*=\s*(\w+)$', sql, re.I)
			if m:
				self.connection.autocommit = m.group(1).upper() in ('1', 'ON', 'TRUE')
			return None
		elif word == 'USE':
			return None
		else:
			raise HarnessError('unsupported statement: %s' % statement)
		try:
			server.store_error = server.chosen_id = None
			cursor = server.db.execute(sql, values)
		except sqlite3.IntegrityError as e:
			self.connection._written()
			if 'UNIQUE' in str(e):
				raise errors.IntegrityError('Duplicate entry: %s' % e, errno=1062)
			raise errors.IntegrityError(str(e))
		except sqlite3.OperationalError as e:
			if server.store_error is not None:
				raise server.store_error
			if 'no such column' in str(e) or 'no such table' in str(e) or 'has no column' in str(e):
				raise errors.ProgrammingError(str(e), errno=1054)
			raise HarnessError('unsupported SQL: %s: %s' % (e, sql))
		except sqlite3.ProgrammingError as e:
			raise errors.ProgrammingError(str(e))
		if cursor.description is not None:
			self.description = [(d[0], ) + (None, ) * 6 for d in cursor.description]
			self._rows = [tuple(from_sqlite(v) for v in r) for r in cursor.fetchall()]
			self.rowcount = len(self._rows) if self.buffered else -1
			if not self.buffered:
				self.connection.unread = self
		else:
			self.description = None
			self.rowcount = cursor.rowcount
			if word == 'INSERT':
				self.lastrowid = cursor.lastrowid if server.chosen_id is None else server.chosen_id
				server.last_id = self.lastrowid
			self.connection._written()
		return None

	def executemany(self, operation, seq_params):
		count = 0
		for params in seq_params:
			self.execute(operation, params)
			if self._rows is not None:
				self.fetchall()
			count += max(self.rowcount, 0)
		self.rowcount = count

	def _translate(self, statement, params):
		sql = statement.strip().rstrip(';').strip()
		if isinstance(params, dict):
			ordered = []

			def named(m):
				ordered.append(params[m.group(1)])
				return '?'
			sql = re.sub(r'%\((\w+)\)s', named, sql)
			values = ordered
		else:
			values = list(params or ())
			if values:
				count = len(re.findall(r'%s', sql))
				if count != len(values):
					raise errors.ProgrammingError('Not all parameters were used in the SQL statement', errno=1210)
				sql = sql.replace('%s', '?')
			elif '%s' in sql:
				raise errors.ProgrammingError('You have an error in your SQL syntax near %s', errno=1064)
		for v in values:
			to_sqlite(v)  # raises for unsupported types
		return sql, values

	def _bind(self, server, plan, values):
		"""Converts each parameter that is stored to its column's type, and the others to what sqlite compares alike."""
		if plan.count != len(values):
			raise errors.ProgrammingError('Not enough parameters for the SQL statement', errno=1210)
		out = [None] * len(values)
		direct = set()
		if plan.table is not None:
			table = self._table(server, plan.table)
			if plan.inserted is not None and len(set(plan.inserted)) != len(plan.inserted):
				raise errors.ProgrammingError('Column specified twice', errno=1110)
			for name in plan.columns:
				self._column(table, name)
			for n, name in plan.direct:
				out[n - 1] = convert(self._column(table, name), exact(to_sqlite_exact(values[n - 1])))
				direct.add(n)
			if plan.inserted is not None:
				for column in table.columns:
					if column.not_null and not column.auto and column.name not in plan.inserted:
						raise errors.DatabaseError("Field '%s' doesn't have a default value" % column.name, errno=1364)
		kinds = {n: server.kinds.get(name) for n, name in plan.compared}
		for n, value in enumerate(values, 1):
			if n in direct:
				continue
			value = to_sqlite(value)
			if isinstance(value, str):
				if re.match(r'-?\d+(\.\d+)?$', value):  # MySQL compares it with a number as a number
					value = float(value) if '.' in value else int(value)
				elif kinds.get(n) == 'datetime' and re.match(r'\d{4}-\d\d-\d\d$', value):
					value += ' 00:00:00'
				elif kinds.get(n) == 'date' and value.endswith(' 00:00:00'):
					value = value[:10]
			out[n - 1] = value
		return out

	def _table(self, server, name):
		if name not in server.tables:
			raise errors.ProgrammingError("Table '%s' doesn't exist" % name, errno=1146)
		return server.tables[name]

	def _column(self, table, name):
		for c in table.columns:
			if c.name == name:
				return c
		raise errors.ProgrammingError("Unknown column '%s' in 'field list'" % name, errno=1054)

	# -- fetching
	def _available(self):
		if self.closed:
			raise errors.ProgrammingError('Cursor is not connected', errno=2055)
		if self._rows is None:
			raise errors.InterfaceError('No result set to fetch from')
		self.connection._operation('fetch')

	def _advance(self):
		if self._position >= len(self._rows) and self.connection.unread is self:
			self.connection.unread = None

	def _row(self, row):
		return dict(zip(self.column_names, row)) if self.dictionary else row

	def fetchone(self):
		self._available()
		if self._position < len(self._rows):
			row = self._rows[self._position]
			self._position += 1
			self._advance()  # an unbuffered cursor looks one row ahead
			return self._row(row)
		self._advance()
		return None

	arraysize = 1

	def fetchmany(self, size=None):
		out = []
		size = size or self.arraysize
		while len(out) < size:
			row = self.fetchone()
			if row is None:
				break
			out.append(row)
		return out

	def fetchall(self):
		self._available()
		out = [self._row(r) for r in self._rows[self._position:]]
		self._position = len(self._rows)
		self._advance()
		return out

	def reset(self, free=True):
		self.connection.consume_results()

	def nextset(self):
		return None

	@property
	def warnings(self):
		return None

	fetchwarnings = nextset
	warning_count = 0

	def __iter__(self):
		return self

	def __next__(self):
		row = self.fetchone()
		if row is None:
			raise StopIteration()
		return row

	next = __next__

	def close(self):
		if self.closed:
			return False
		self.close_failed = True
		self.connection._operation('cursor.close')
		if self.connection.unread is self:
			raise errors.InternalError('Unread result found')
		self.closed = True
		return True

	def __enter__(self):
		return self

	def __exit__(self, *_):
		self.close()

	def __getattr__(self, name):
		raise HarnessError('FakeCursor does not support %s' % name)


def exact(value):
	return str(value) if isinstance(value, decimal.Decimal) else value


class Router(object):
	"""Several servers, told apart by the name of the database."""

	def __init__(self, servers):
		self.servers = servers

	def connect(self, *args, **kwargs):
		name = kwargs.get('database', kwargs.get('db'))
		if name not in self.servers:
			raise errors.ProgrammingError("1049 (42000): Unknown database '%s'" % name, errno=1049)
		return self.servers[name].connect(*args, **kwargs)


class patched(object):
	"""Routes every way of connecting that mysql.connector offers to the fake server."""

	NAMES = ('connect', 'Connect', 'MySQLConnection', 'CMySQLConnection')

	def __init__(self, server):
		self.server = server

	def __enter__(self):
		import weatherlink.exporter.mysql as module
		originals = [getattr(mysql.connector, name) for name in self.NAMES if hasattr(mysql.connector, name)]
		self._saved = []
		for place in (mysql.connector, module):
			for name, value in list(vars(place).items()):
				if any(value is o for o in originals):
					self._saved.append((place, name, value))
					setattr(place, name, self.server.connect)
		return self.server

	def __exit__(self, *_):
		for place, name, value in self._saved:
			setattr(place, name, value)
