"""
MySQL's dialect for sqlite: rewrites statements token by token, and provides MySQL's functions.

Only what a rewording of the exporter's statements could plausibly use; what is not understood makes sqlite fail, which the
caller reports as an error of the harness.
"""
import datetime
import decimal
import math
import re

TOKEN = re.compile(r"""(?P<space>\s+|--[^\n]*|/\*.*?\*/|\#[^\n]*)|(?P<string>'(?:[^'\\]|''|\\.)*'|"(?:[^"\\]|""|\\.)*")|(?P<name>`[^`]*`|[A-Za-z_@][A-Za-z_0-9$@]*)|
	(?P<number>\d+(?:\.\d*)?(?:[eE][+-]?\d+)?|\.\d+)|(?P<parameter>\?\d*)|(?P<operator><=>|<>|!=|<=|>=|:=|&&|\|\||.)""", re.S | re.X)

UNITS = ('MICROSECOND', 'SECOND', 'MINUTE', 'HOUR', 'DAY', 'WEEK', 'MONTH', 'QUARTER', 'YEAR')


def tokens(sql):
	out = []
	for m in TOKEN.finditer(sql):
		kind = m.lastgroup
		if kind == 'space':
			continue
		out.append((kind, m.group()))
	return out


def text(found):
	return ' '.join(t for _, t in found)


def word(token):
	return token[1].upper() if token[0] == 'name' and not token[1].startswith('`') else None


def plain(token):
	"""The name a token stands for."""
	return token[1].strip('`')


def closing(found, start):
	"""The index of the parenthesis that closes the one at `start`."""
	depth = 0
	for i in range(start, len(found)):
		if found[i][1] == '(' and found[i][0] == 'operator':
			depth += 1
		elif found[i][1] == ')' and found[i][0] == 'operator':
			depth -= 1
			if not depth:
				return i
	raise ValueError('parentheses do not match')


def split(found, separator=','):
	"""The parts between separators outside parentheses."""
	out, depth, part = [], 0, []
	for t in found:
		if t[0] == 'operator' and t[1] in '()':
			depth += 1 if t[1] == '(' else -1
		if not depth and (t[1] == separator if separator == ',' else word(t) == separator):
			out.append(part)
			part = []
		else:
			part.append(t)
	out.append(part)
	return out


def find(found, *words):
	"""The index of a sequence of words outside parentheses, or None."""
	depth = 0
	for i, t in enumerate(found):
		if t[0] == 'operator' and t[1] in '()':
			depth += 1 if t[1] == '(' else -1
		if not depth and [word(x) for x in found[i:i + len(words)]] == list(words):
			return i
	return None


def numbered(sql):
	"""Tokens with their parameters numbered in order, so that expressions may be moved and repeated."""
	out, n = [], 0
	for kind, t in tokens(sql):
		if kind == 'parameter':
			n += 1
			t = '?%d' % n
		out.append((kind, t))
	return out


def _call(name, *arguments):
	out = [('name', name), ('operator', '(')]
	for i, a in enumerate(arguments):
		if i:
			out.append(('operator', ','))
		out.extend(a)
	return out + [('operator', ')')]


def _literal(s):
	return [('string', "'%s'" % s)]


def _left(out):
	"""Where the operand that ends at the end of `out` starts."""
	i = len(out) - 1
	if i >= 0 and out[i][1] == ')' and out[i][0] == 'operator':
		depth = 0
		while i >= 0:
			if out[i][0] == 'operator' and out[i][1] in '()':
				depth += 1 if out[i][1] == ')' else -1
				if not depth:
					break
			i -= 1
		if i > 0 and out[i - 1][0] == 'name' and word(out[i - 1]) not in ('AND', 'OR', 'NOT', 'IN', 'WHERE', 'BETWEEN', 'SELECT', 'WHEN', 'THEN', 'ELSE', 'ON', 'BY'):
			i -= 1
		return i
	while i >= 2 and out[i - 1][1] == '.':
		i -= 2
	return i


RENAMED = {'IF': 'iif', 'ISNULL': 'mysql_isnull', 'LEFT': 'mysql_left', 'RIGHT': 'mysql_right', 'REPLACE': 'replace'}


def rewrite(found):
	"""The same expression or query for sqlite."""
	out, i = [], 0
	while i < len(found):
		kind, t = found[i]
		w = word(found[i])
		called = i + 1 < len(found) and found[i + 1] == ('operator', '(')
		if kind == 'string' and t[0] == '"':
			out.append(('string', "'%s'" % t[1:-1].replace('""', '"').replace("'", "''")))
		elif kind == 'string' and '\\' in t:
			out.append(('string', re.sub(r'\\(.)', r'\1', t.replace("\\'", "''"))))
		elif t == '<=>':
			out.append(('name', 'IS'))
		elif t == '&&':
			out.append(('name', 'AND'))
		elif t == '||':
			out.append(('name', 'OR'))
		elif t == '/' and kind == 'operator':
			out.extend([('operator', '*'), ('number', '1.0'), ('operator', '/')])
		elif w in ('CAST', 'CONVERT') and called:
			end = closing(found, i + 1)
			inner = found[i + 2:end]
			parts = split(inner, 'AS') if w == 'CAST' else split(inner)
			out.extend(_call('mysql_cast', rewrite(parts[0]), _literal(text(parts[1]).upper())))
			i = end
		elif w == 'EXTRACT' and called:
			end = closing(found, i + 1)
			unit, rest = split(found[i + 2:end], 'FROM')
			out.extend(_call('mysql_extract', _literal(text(unit).upper()), rewrite(rest)))
			i = end
		elif w in ('TIMESTAMPDIFF', 'TIMESTAMPADD') and called:
			end = closing(found, i + 1)
			parts = split(found[i + 2:end])
			out.extend(_call(w.lower(), _literal(text(parts[0]).upper()), *[rewrite(p) for p in parts[1:]]))
			i = end
		elif w == 'INTERVAL' and not called or w == 'INTERVAL':
			j, depth = i + 1, 0
			while j < len(found) and (depth or word(found[j]) not in UNITS):
				if found[j][0] == 'operator' and found[j][1] in '()':
					depth += 1 if found[j][1] == '(' else -1
				j += 1
			if j == len(found):
				raise ValueError('an interval without a unit')
			interval = _call('mysql_interval', rewrite(found[i + 1:j]), _literal(word(found[j])))
			if out and out[-1][0] == 'operator' and out[-1][1] in '+-':
				name = 'date_add' if out.pop()[1] == '+' else 'date_sub'
				start = _left(out)
				left = out[start:]
				del out[start:]
				out.extend(_call(name, left, interval))
			else:
				out.extend(interval)
			i = j
		elif w in ('FORCE', 'USE', 'IGNORE') and i + 1 < len(found) and word(found[i + 1]) in ('INDEX', 'KEY'):
			j = i + 2
			while found[j][1] != '(':
				j += 1
			i = closing(found, j)
		elif w == 'FOR' and i + 1 < len(found) and word(found[i + 1]) in ('UPDATE', 'SHARE'):
			i += 1
		elif w == 'LOCK' and [word(x) for x in found[i:i + 4]] == ['LOCK', 'IN', 'SHARE', 'MODE']:
			i += 3
		elif w in RENAMED and called:
			out.append(('name', RENAMED[w]))
		elif w == 'DIV':
			start = _left(out)
			left = out[start:]
			del out[start:]
			j = i + 1
			if j + 1 < len(found) and found[j][0] == 'name' and found[j + 1] == ('operator', '('):
				j = closing(found, j + 1)
			elif found[j] == ('operator', '('):
				j = closing(found, j)
			out.extend(_call('mysql_div', left, rewrite(found[i + 1:j + 1])))
			i = j
		elif w in ('MOD', ) and not called:
			out.append(('operator', '%'))
		else:
			out.append((kind, t))
		i += 1
	return out


# -- functions
def number(value):
	if isinstance(value, str):
		m = re.match(r'\s*-?\d+(\.\d+)?', value)
		value = float(m.group()) if m else 0.0
	return decimal.Decimal(repr(value))


def back(d):
	return int(d) if d == d.to_integral_value() and d.as_tuple().exponent >= 0 else float(d)


def moment(value):
	if isinstance(value, str):
		for form in ('%Y-%m-%d %H:%M:%S', '%Y-%m-%d', '%Y-%m-%d %H:%M:%S.%f', '%Y-%m-%d %H:%M'):
			try:
				return datetime.datetime.strptime(value, form)
			except ValueError:
				pass
	return None


def show(d, date_only=False):
	if date_only:
		return d.strftime('%Y-%m-%d')
	return d.strftime('%Y-%m-%d %H:%M:%S' + ('.%f' if d.microsecond else ''))


def seconds_of(value):
	m = re.match(r'(-?)(\d+):(\d\d)(?::(\d\d))?', value) if isinstance(value, str) else None
	if m and '-' not in value[1:]:
		return (-1 if m.group(1) else 1) * (int(m.group(2)) * 3600 + int(m.group(3)) * 60 + int(m.group(4) or 0))
	d = moment(value)
	return None if d is None else d.hour * 3600 + d.minute * 60 + d.second


def clock(seconds):
	sign, seconds = ('-', -seconds) if seconds < 0 else ('', seconds)
	return '%s%02d:%02d:%02d' % (sign, seconds // 3600, seconds // 60 % 60, seconds % 60)


def months_later(d, months):
	total = d.year * 12 + d.month - 1 + months
	year, month = total // 12, total % 12 + 1
	last = (datetime.date(year + (month == 12), month % 12 + 1, 1) - datetime.timedelta(days=1)).day
	return d.replace(year=year, month=month, day=min(d.day, last))


def later(value, interval, sign=1):
	d = moment(value)
	if d is None or interval is None:
		return None
	if isinstance(interval, str) and interval.startswith('INTERVAL '):
		_, amount, unit = interval.split(' ')
	else:
		amount, unit = interval, 'DAY'
	amount = sign * number(str(amount) if not isinstance(amount, str) else amount)
	whole = isinstance(value, str) and len(value) == 10 and unit in ('DAY', 'WEEK', 'MONTH', 'QUARTER', 'YEAR')
	if unit in ('MONTH', 'QUARTER', 'YEAR'):
		d = months_later(d, int(amount) * {'MONTH': 1, 'QUARTER': 3, 'YEAR': 12}[unit])
	else:
		d += datetime.timedelta(seconds=float(amount * {'MICROSECOND': decimal.Decimal('0.000001'), 'SECOND': 1, 'MINUTE': 60, 'HOUR': 3600, 'DAY': 86400, 'WEEK': 604800}[unit]))
	return show(d, whole)


def week(d, mode=0):
	"""MySQL's WEEK(), as (year, week): a transcription of its calc_week()."""
	mode = int(mode) & 7
	if not mode & 1:
		mode ^= 4
	of_year, first = mode & 2, mode & 4
	year, number_of_day = d.year, d.toordinal()
	start = datetime.date(year, 1, 1).toordinal()
	weekday = (start + (6 if mode & 1 else 0)) % 7
	late = lambda: first and weekday != 0 or not first and weekday >= 4
	length = lambda: datetime.date(year, 12, 31).timetuple().tm_yday
	if d.month == 1 and d.day <= 7 - weekday:
		if not of_year and late():
			return year, 0
		of_year = 2
		year -= 1
		start -= length()
		weekday = (weekday + 53 * 7 - length()) % 7
	days = number_of_day - (start + 7 - weekday if late() else start - weekday)
	if of_year and days >= 52 * 7:
		weekday = (weekday + length()) % 7
		if not first and weekday < 4 or first and weekday == 0:
			return year + 1, 1
	return year, days // 7 + 1


FORMATS = {'Y': '%Y', 'y': '%y', 'm': '%m', 'd': '%d', 'H': '%H', 'i': '%M', 's': '%S', 'S': '%S', 'j': '%j', 'T': '%H:%M:%S', 'M': '%B', 'b': '%b', 'W': '%A', 'a': '%a', 'f': '%f', 'p': '%p', 'h': '%I', 'I': '%I'}


def date_format(value, form):
	d = moment(value)
	if d is None:
		return None
	own = {'c': str(d.month), 'e': str(d.day), 'k': str(d.hour), 'u': '%02d' % week(d, 1)[1], 'v': '%02d' % week(d, 3)[1], 'x': '%04d' % week(d, 3)[0], 'w': str((d.weekday() + 1) % 7), '%': '%'}
	return re.sub(r'%(.)', lambda m: own[m.group(1)] if m.group(1) in own else d.strftime(FORMATS.get(m.group(1), m.group(1))), form)


def str_to_date(value, form):
	try:
		d = datetime.datetime.strptime(value, re.sub(r'%(.)', lambda m: FORMATS.get(m.group(1), {'c': '%m', 'e': '%d', 'k': '%H'}.get(m.group(1), '%' + m.group(1))), form))
	except (TypeError, ValueError):
		return None
	return show(d, not re.search('%[HihkIsSTp]', form))


def rounded(value, places=0):
	return back(number(value).quantize(decimal.Decimal(1).scaleb(-int(places)), rounding=decimal.ROUND_HALF_UP))


def cast(value, kind):
	if kind.startswith(('SIGNED', 'UNSIGNED', 'INT')):
		return int(number(value).quantize(decimal.Decimal(1), rounding=decimal.ROUND_HALF_UP))
	if kind.startswith('DECIMAL'):
		m = re.findall(r'\d+', kind)
		return float(number(value).quantize(decimal.Decimal(1).scaleb(-int(m[1]) if len(m) > 1 else 0), rounding=decimal.ROUND_HALF_UP))
	if kind.startswith(('DOUBLE', 'FLOAT', 'REAL')):
		return float(number(value))
	if kind.startswith('CHAR'):
		return str(value)
	if kind.startswith('DATETIME'):
		d = moment(value)
		return None if d is None else show(d)
	if kind.startswith('DATE'):
		d = moment(value)
		return None if d is None else show(d, True)
	if kind.startswith('TIME'):
		s = seconds_of(value)
		return None if s is None else clock(s)
	if kind.startswith('YEAR'):
		return int(number(value))
	raise ValueError(kind)


def part(function):
	def of(value):
		d = moment(value)
		return None if d is None else function(d)
	return of


def extract(unit, value):
	d = moment(value)
	return None if d is None else {'YEAR': d.year, 'MONTH': d.month, 'DAY': d.day, 'HOUR': d.hour, 'MINUTE': d.minute, 'SECOND': d.second, 'WEEK': week(d)[1], 'QUARTER': (d.month + 2) // 3,
		'YEAR_MONTH': d.year * 100 + d.month}[unit]


def difference(unit, a, b):
	a, b = moment(a), moment(b)
	if a is None or b is None:
		return None
	if unit in ('MONTH', 'QUARTER', 'YEAR'):
		sign = 1 if b >= a else -1
		low, high = min(a, b), max(a, b)
		months = (high.year - low.year) * 12 + high.month - low.month
		if months_later(low, months) > high:
			months -= 1
		return sign * (months // {'MONTH': 1, 'QUARTER': 3, 'YEAR': 12}[unit])
	seconds = (b - a).total_seconds()
	return int(seconds / {'SECOND': 1, 'MINUTE': 60, 'HOUR': 3600, 'DAY': 86400, 'WEEK': 604800, 'MICROSECOND': 1e-6}[unit])


def days_between(a, b):
	a, b = moment(a), moment(b)
	return None if a is None or b is None else (a.date() - b.date()).days


def of_numbers(function):
	def of(*values):
		return function(*[float(number(v)) for v in values])
	return of


def strict(function):
	"""NULL for NULL."""
	def of(*values):
		return None if any(v is None for v in values) else function(*values)
	return of


def extreme(function):
	def of(*values):
		return None if any(v is None for v in values) else function(values)
	return of


FUNCTIONS = {
	'year': part(lambda d: d.year), 'month': part(lambda d: d.month), 'day': part(lambda d: d.day), 'dayofmonth': part(lambda d: d.day), 'hour': strict(lambda v: seconds_of(v) // 3600),
	'minute': strict(lambda v: seconds_of(v) // 60 % 60), 'second': strict(lambda v: seconds_of(v) % 60), 'weekday': part(lambda d: d.weekday()), 'dayofweek': part(lambda d: (d.weekday() + 1) % 7 + 1),
	'dayofyear': part(lambda d: d.timetuple().tm_yday), 'weekofyear': part(lambda d: d.isocalendar()[1]), 'quarter': part(lambda d: (d.month + 2) // 3),
	'last_day': part(lambda d: show(months_later(d.replace(day=1), 1) - datetime.timedelta(days=1), True)), 'date': part(lambda d: show(d, True)), 'timestamp': part(show),
	'time': strict(lambda v: clock(seconds_of(v))), 'to_days': part(lambda d: d.toordinal() + 365), 'week': lambda v, mode=0: None if moment(v) is None else week(moment(v), mode)[1],
	'yearweek': lambda v, mode=0: None if moment(v) is None else (lambda y, w: y * 100 + w)(*week(moment(v), int(mode) | 2)), 'datediff': days_between,
	'timediff': strict(lambda a, b: clock(int((moment(a) - moment(b)).total_seconds()) if moment(a) and moment(b) else seconds_of(a) - seconds_of(b))),
	'time_to_sec': strict(seconds_of), 'sec_to_time': strict(lambda v: clock(int(v))), 'maketime': strict(lambda h, m, s: clock(int(h) * 3600 + int(m) * 60 + int(s))),
	'makedate': strict(lambda y, n: show(datetime.datetime(int(y), 1, 1) + datetime.timedelta(days=int(n) - 1), True)), 'unix_timestamp': part(lambda d: int((d - datetime.datetime(1970, 1, 1)).total_seconds())),
	'from_unixtime': strict(lambda v: show(datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=float(v)))), 'date_format': strict(date_format), 'str_to_date': strict(str_to_date),
	'date_add': later, 'adddate': later, 'date_sub': lambda v, i: later(v, i, -1), 'subdate': lambda v, i: later(v, i, -1), 'addtime': strict(lambda v, s: later(v, 'INTERVAL %d SECOND' % seconds_of(s))),
	'subtime': strict(lambda v, s: later(v, 'INTERVAL %d SECOND' % -seconds_of(s))), 'mysql_interval': strict(lambda v, unit: 'INTERVAL %s %s' % (number(v), unit)),
	'timestampdiff': difference, 'timestampadd': strict(lambda unit, n, v: later(v, 'INTERVAL %s %s' % (number(n), unit))), 'mysql_cast': strict(cast), 'mysql_extract': strict(extract),
	'mysql_div': strict(lambda a, b: int(number(a) / number(b)) if number(b) else None), 'mod': strict(lambda a, b: back(number(a) % number(b)) if number(b) else None),
	'mysql_isnull': lambda v: int(v is None), 'mysql_left': strict(lambda v, n: str(v)[:int(n)]), 'mysql_right': strict(lambda v, n: str(v)[-int(n):] if n else ''),
	'concat': strict(lambda *v: ''.join(str(x) for x in v)), 'lpad': strict(lambda v, n, p: str(v).rjust(int(n), p)[:int(n)]), 'greatest': extreme(max), 'least': extreme(min),
	'round': strict(rounded), 'truncate': strict(lambda v, n: back(number(v).quantize(decimal.Decimal(1).scaleb(-int(n)), rounding=decimal.ROUND_DOWN))), 'floor': strict(lambda v: math.floor(number(v))),
	'ceil': strict(lambda v: math.ceil(number(v))), 'ceiling': strict(lambda v: math.ceil(number(v))), 'sqrt': strict(of_numbers(math.sqrt)), 'pow': strict(of_numbers(math.pow)),
	'power': strict(of_numbers(math.pow)), 'sin': strict(of_numbers(math.sin)), 'cos': strict(of_numbers(math.cos)), 'atan2': strict(of_numbers(math.atan2)), 'atan': strict(of_numbers(math.atan)),
	'degrees': strict(of_numbers(math.degrees)), 'radians': strict(of_numbers(math.radians)), 'any_value': lambda v: v, 'field': lambda v, *values: values.index(v) + 1 if v in values else 0,
	'now': lambda: show(datetime.datetime.now().replace(microsecond=0)), 'curdate': lambda: show(datetime.datetime.now(), True), 'utc_timestamp': lambda: show(datetime.datetime.utcnow().replace(microsecond=0)),
	'regexp': strict(lambda pattern, v: int(bool(re.search(pattern, str(v))))), 'elt': lambda n, *values: values[int(n) - 1] if n and 1 <= int(n) <= len(values) else None,
}


def register(db):
	for name, function in FUNCTIONS.items():
		db.create_function(name, -1, function, deterministic=name not in ('now', 'curdate', 'utc_timestamp'))


# -- statements
class Syntax(Exception):
	"""MySQL would not accept the statement."""


class Unsupported(Exception):
	"""MySQL might accept it, but the double does not."""


class Plan(object):
	"""A statement for sqlite: `direct` parameters are stored as they are in columns, others are parts of expressions."""

	def __init__(self, kind, table=None):
		self.kind, self.table = kind, table
		self.sql = None
		self.direct = []  # (number of the parameter, column)
		self.columns = []  # all that are written
		self.inserted = None  # those that an INSERT names
		self.compared = []  # (number of the parameter, column it is compared with)
		self.count = 0


def _parameter(found):
	return int(found[0][1][1:]) if len(found) == 1 and found[0][0] == 'parameter' else None


def _store(plan, column, found, known=None):
	"""The expression that stores a value in a column."""
	plan.columns.append(column)
	n = _parameter(found)
	if n is not None:
		plan.direct.append((n, column))
		return found
	return _call('mysql_store', _literal(plan.table), _literal(column), rewrite(found))


def _assign(plan, found, new=None, fresh=None):
	"""Assignments as in UPDATE. MySQL evaluates them in order, sqlite all at once."""
	out, earlier = [], {}
	for part in split(found):
		if len(part) >= 3 and part[0][0] == 'name' and part[1][1] == '.':
			part = part[2:]
		if len(part) < 3 or part[0][0] != 'name' or part[1][1] != '=':
			raise Syntax(text(part))
		column, right = plain(part[0]), part[2:]
		if new:  # ON DUPLICATE KEY UPDATE
			changed, i = [], 0
			while i < len(right):
				if word(right[i]) == 'VALUES' and i + 3 < len(right) and right[i + 1][1] == '(' and right[i + 3][1] == ')':
					changed.extend([('name', 'excluded'), ('operator', '.'), right[i + 2]])
					i += 4
				elif fresh and right[i][0] == 'name' and plain(right[i]) == fresh and i + 2 < len(right) and right[i + 1][1] == '.':
					changed.extend([('name', 'excluded'), ('operator', '.'), right[i + 2]])
					i += 3
				else:
					changed.append(right[i])
					i += 1
			right = changed
		changed = []
		for i, t in enumerate(right):
			if t[0] == 'name' and plain(t) in earlier and not (i and right[i - 1][1] == '.') and not (i + 1 < len(right) and right[i + 1][1] == '('):
				changed.extend([('operator', '(')] + earlier[plain(t)] + [('operator', ')')])
			else:
				changed.append(t)
		right = changed
		if len(right) == 1 and word(right[0]) == 'DEFAULT':
			right = [('name', 'NULL')]
		stored = _store(plan, column, right)
		earlier[column] = stored
		if out:
			out.append(('operator', ','))
		out.extend([('name', '`%s`' % column), ('operator', '=')] + stored)
	return out


def _insert(found):
	replace = word(found[0]) == 'REPLACE'
	i, ignore = 1, False
	while word(found[i]) in ('IGNORE', 'INTO', 'LOW_PRIORITY', 'HIGH_PRIORITY', 'DELAYED'):
		ignore = ignore or word(found[i]) == 'IGNORE'
		i += 1
	plan = Plan('INSERT', plain(found[i]))
	i += 1
	if found[i][1] == '.':
		plan.table = plain(found[i + 1])
		i += 2
	tail = find(found, 'ON', 'DUPLICATE', 'KEY', 'UPDATE')
	body, update = (found[i:], None) if tail is None else (found[i:tail], found[tail + 4:])
	verb = 'REPLACE' if replace else 'INSERT OR IGNORE' if ignore else 'INSERT'
	fresh = None
	names = None
	if body and body[0][1] == '(' and word(body[1]) != 'SELECT':
		end = closing(body, 0)
		names = [plain(p[-1]) for p in split(body[1:end])]
		body = body[end + 1:]
	w = word(body[0]) if body else None
	if w == 'SET':
		names, values = [], []
		for p in split(body[1:]):
			if len(p) < 3 or p[1][1] != '=':
				raise Syntax(text(p))
			names.append(plain(p[0]))
			values.append(p[2:])
		groups = [values]
		body = []
	elif w in ('VALUES', 'VALUE'):
		groups, i = [], 1
		while i < len(body) and body[i][1] in ('(', ','):
			if body[i][1] == ',':
				i += 1
			if i >= len(body) or body[i][1] != '(':
				raise Syntax(text(body[i:i + 3]))
			end = closing(body, i)
			groups.append(split(body[i + 1:end]))
			i = end + 1
		body = body[i:]
		if body and word(body[0]) == 'AS' and len(body) >= 2:
			fresh, body = plain(body[1]), body[2:]
		if body:
			raise Syntax(text(body))
	elif w in ('SELECT', 'WITH') or body and body[0][1] == '(':
		groups = None
	else:
		raise Syntax(text(body))
	if names is None:
		raise Unsupported('INSERT without columns')
	plan.inserted = names
	if groups is None:
		plan.columns.extend(names)
		q = ['q%d' % k for k in range(len(names))]
		query = rewrite(body[1:-1] if body[0][1] == '(' else body)
		out = 'WITH new_rows(%s) AS (%s) %s INTO `%s` (%s) SELECT %s FROM new_rows WHERE 1' % (', '.join(q), text(query), verb, plan.table, ', '.join('`%s`' % n for n in names),
			', '.join("mysql_store('%s', '%s', %s)" % (plan.table, n, c) for n, c in zip(names, q)))
	else:
		rows = []
		for values in groups:
			if len(values) != len(names):
				raise Syntax('the column count does not match the value count')
			values = [[('name', 'NULL')] if len(v) == 1 and word(v[0]) == 'DEFAULT' else v for v in values]
			rows.append('(%s)' % ', '.join(text(_store(plan, n, v)) for n, v in zip(names, values)))
		out = '%s INTO `%s` (%s) VALUES %s' % (verb, plan.table, ', '.join('`%s`' % n for n in names), ', '.join(rows))
	if update is not None:
		out += ' ON CONFLICT DO UPDATE SET ' + text(_assign(plan, update, True, fresh))
	plan.sql = out
	return plan


def _update(found):
	start = find(found, 'SET')
	if start is None:
		raise Syntax(text(found[:8]))
	target = found[1:start]
	if len(target) > 3 or not target or any(t[1] == ',' for t in target):
		raise Unsupported('UPDATE of more than one table')
	plan = Plan('UPDATE', plain(target[0]))
	alias = plain(target[-1]) if len(target) > 1 else None
	where = find(found, 'WHERE')
	for w in ('ORDER', 'LIMIT'):
		if find(found, w) is not None:
			raise Unsupported('UPDATE with ' + w)
	plan.sql = 'UPDATE `%s`%s SET %s' % (plan.table, ' AS `%s`' % alias if alias else '', text(_assign(plan, found[start + 1:where])))
	if where is not None:
		plan.sql += ' ' + text(rewrite(found[where:]))
	return plan


def _compared(found):
	out = []
	for i, t in enumerate(found):
		if t[0] == 'name' and i + 2 < len(found):
			if found[i + 1][1] in ('=', '<', '>', '<=', '>=', '<>', '!=') and found[i + 2][0] == 'parameter':
				out.append((int(found[i + 2][1][1:]), plain(t)))
			elif word(found[i + 1]) == 'BETWEEN':
				for j in (i + 2, i + 4):
					if j < len(found) and found[j][0] == 'parameter':
						out.append((int(found[j][1][1:]), plain(t)))
		elif t[0] == 'parameter' and i + 2 < len(found) and found[i + 1][1] in ('=', '<', '>', '<=', '>=', '<>', '!=') and found[i + 2][0] == 'name':
			out.append((int(t[1][1:]), plain(found[i + 2])))
	return out


_plans = {}


def plan_for(sql):
	"""The plan of a statement with ? for its parameters."""
	if sql not in _plans:
		try:
			found = numbered(sql)
			if not found:
				raise Syntax(sql)
			w = word(found[0])
			if w in ('INSERT', 'REPLACE'):
				plan = _insert(found)
			elif w == 'UPDATE':
				plan = _update(found)
			else:
				plan = Plan('SELECT' if w in ('SELECT', 'WITH') or found[0][1] == '(' else w)
				plan.sql = text(rewrite(found)) if plan.kind in ('SELECT', 'DELETE') else text(found)
			plan.compared = _compared(found)
			plan.count = sum(k == 'parameter' for k, _ in found)
		except (Syntax, Unsupported) as e:
			plan = e
		except (ValueError, IndexError, KeyError) as e:
			plan = Unsupported('%s: %s' % (type(e).__name__, e))
		if len(_plans) > 5000:
			_plans.clear()
		_plans[sql] = plan
	plan = _plans[sql]
	if isinstance(plan, Exception):
		raise plan
	return plan
