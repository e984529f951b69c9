"""What calculations depend on: their arguments, and nothing else."""
import copy
import datetime
import decimal
import subprocess
import sys
import threading
from decimal import Decimal

from hypothesis import strategies as st

from wlv import archive, codec, env
from wlv.core import HarnessError, Prop, Sub, number

from weatherlink import models, utils

# (function, ranges of its arguments in whole numbers)
TEMPERATURE, HUMIDITY, WIND, SUN, PRESSURE = (-40, 130), (1, 100), (0, 150), (0, 1800), (20, 32)
FUNCTIONS = {
	'convert_fahrenheit_to_kelvin': (TEMPERATURE, ), 'convert_kelvin_to_fahrenheit': ((200, 340), ),
	'convert_fahrenheit_to_celsius': (TEMPERATURE, ), 'convert_celsius_to_fahrenheit': ((-40, 60), ),
	'convert_inches_of_mercury_to_kilopascals': (PRESSURE, ), 'convert_inches_of_mercury_to_millibars': (PRESSURE, ),
	'convert_miles_per_hour_to_meters_per_second': (WIND, ),
	'calculate_wet_bulb_temperature': (TEMPERATURE, HUMIDITY, PRESSURE), 'calculate_dew_point': (TEMPERATURE, HUMIDITY),
	'calculate_heat_index': (TEMPERATURE, HUMIDITY), 'calculate_wind_chill': (TEMPERATURE, WIND),
	'calculate_thw_index': (TEMPERATURE, HUMIDITY, WIND), 'calculate_thsw_index': (TEMPERATURE, HUMIDITY, SUN, WIND),
	'calculate_cooling_degree_days': (TEMPERATURE, ), 'calculate_heating_degree_days': (TEMPERATURE, ),
}
COLLECTORS = list(models.RainCollectorTypeSerial) + list(models.RainCollectorTypeDatabase)


def notations(n):
	"""The same number, written in several ways."""
	d = Decimal(n)
	return [n, d, Decimal('%d.0' % n), Decimal('%d.000' % n), d.normalize()]


def context():
	c = decimal.getcontext()
	return c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, dict(c.traps)


def plain(value):
	"""A result in comparable form."""
	n = number(value)
	if n is not None:
		return n
	if isinstance(value, (tuple, list)):
		return tuple(plain(v) for v in value)
	if isinstance(value, dict):
		return {k: plain(v) for k, v in value.items()}
	return value


def check_notations(case, t):
	name, arguments, variants = case
	function = getattr(utils, name)
	before = context()
	with t.sut(name):
		expected = function(*[Decimal(a) for a in arguments])
	t.check(expected is None or isinstance(expected, Decimal), '%s%s is %r', name, tuple(arguments), expected)
	for v in variants:
		call = [notations(a)[v[k % len(v)]] for k, a in enumerate(arguments)]
		with t.sut('%s%r' % (name, tuple(call))):
			got = function(*call)
		t.check(plain(got) == plain(expected), '%s%r is %r, but with %r it is %r', name, tuple(call), got, arguments, expected)
		if got is not None and any(isinstance(a, int) for a in call):
			t.label('whole numbers')
	t.eq(context(), before, 'decimal settings after %s' % name)
	t.nontrivial(expected is not None)


def call_of(item):
	"""(description, callable without arguments, the arguments)"""
	kind, value = item
	if kind == 'wind':
		records, as_lists = value
		rows, when = [], datetime.datetime(2015, 3, 8, 1)
		for speed, direction, minutes in records:
			when += datetime.timedelta(minutes=minutes)
			rows.append((speed, direction, when, minutes))
		if as_lists & 2:
			rows.reverse()
		rows = [list(r) for r in rows] if as_lists & 1 else tuple(rows)
		return utils.calculate_10_minute_wind_average, (rows, )
	if kind == 'record':
		return utils.calculate_all_record_values, (archive.build(value), )
	if kind == 'stamp':
		return models.convert_datetime_to_timestamp, (value, )
	if kind == 'date':
		return models.convert_timestamp_to_datetime, (codec.timestamp(value), )
	if kind == 'crc':
		return models.calculate_weatherlink_crc, (value, )
	if kind == 'direction':
		return models.WindDirection.from_degrees, (value, )
	if kind == 'rain':
		c = COLLECTORS[value[0] % len(COLLECTORS)]
		return (c.clicks_to_inches if value[1] else c.clicks_to_centimeters), (value[2], )
	return getattr(utils, kind), tuple(value)


def check_order(case, t):
	"""The same calls in another order, again, and in several threads at once."""
	items, order, threads, settings = case
	if 'prec' in settings or 'rounding' in settings:
		threads = 0  # which have a decimal context of their own
	with decimal.localcontext() as c:
		for name, v in settings.items():  # results may depend on the precision and rounding, but not on the others
			setattr(c, name, v)
		order_of_calls(items, order, threads, t)
	t.label(*['with %s=%s' % s for s in settings.items()])


def order_of_calls(items, order, threads, t):
	before = context()
	calls = [call_of(i) for i in items]
	kept = copy.deepcopy([a for _, a in calls])
	first = []
	for (function, arguments), item in zip(calls, items):
		with t.sut(item[0]):
			first.append(plain(function(*arguments)))
	shuffled = sorted(range(len(calls)), key=lambda k: (order[k % len(order)], k))
	for k in shuffled:
		with t.sut(items[k][0]):
			got = plain(calls[k][0](*calls[k][1]))
		t.check(got == first[k], '%s%r gave %r at first and %r after other calls', items[k][0], calls[k][1], first[k], got)
	if threads:
		problems = []

		def work(offset):
			try:
				for j in range(len(calls)):
					k = (j + offset) % len(calls)
					function, arguments = calls[k]
					got = plain(function(*arguments))
					if got != first[k]:
						problems.append('%s%r gave %r at first and %r in another thread' % (items[k][0], arguments, first[k], got))
			except BaseException as e:
				problems.append('%s in another thread: %s' % (type(e).__name__, e))
		interval = sys.getswitchinterval()
		sys.setswitchinterval(1e-5)
		try:
			workers = [threading.Thread(target=work, args=(offset, )) for offset in range(threads)]
			for w in workers:
				w.start()
			for w in workers:
				w.join(60)
				if w.is_alive():
					raise HarnessError('a calculation takes over a minute')
		finally:
			sys.setswitchinterval(interval)
		t.check(not problems, '%s', problems[:1])
		t.label('%d threads' % threads)
	for k, (_, arguments) in enumerate(calls):
		same = arguments == kept[k] and repr(arguments) == repr(kept[k])
		t.check(same, '%s changed its arguments from %r to %r', items[k][0], kept[k], arguments)
	t.eq(context(), before, 'decimal settings after the calculations')
	t.nontrivial(len(calls) >= 2)
	t.label(*{'with %s' % k if k in ('wind', 'record', 'crc') else 'with values' for k, _ in items})


def arguments_of(name, places=False):
	def one(low, high):
		whole = st.integers(low, high)
		return st.one_of(whole, st.integers(low * 10, high * 10).map(lambda n: Decimal(n).scaleb(-1))) if places else whole
	return st.tuples(*[one(*r) for r in FUNCTIONS[name]])


def call():
	value = st.sampled_from(sorted(FUNCTIONS)).flatmap(lambda n: st.tuples(st.just(n), arguments_of(n, True)))
	wind = st.tuples(st.lists(st.tuples(st.one_of(st.none(), st.integers(0, 60)), st.one_of(st.none(), st.sampled_from(['N', 'NE', 'S'])), st.sampled_from([1, 1, 2, 5, 10])),
		max_size=14), st.integers(0, 3))
	dates = st.integers(0, 10 ** 7).map(lambda m: datetime.datetime(2001, 1, 1) + datetime.timedelta(minutes=m))
	return st.one_of(
		value, value, value,
		st.tuples(st.just('wind'), wind), st.tuples(st.just('record'), archive.fields()), st.tuples(st.just('stamp'), dates), st.tuples(st.just('date'), dates),
		st.tuples(st.just('crc'), st.binary(max_size=40)), st.tuples(st.just('direction'), st.integers(1, 360)),
		st.tuples(st.just('rain'), st.tuples(st.integers(0, 9), st.booleans(), st.integers(0, 4000))),
	)


def notation_cases():
	variant = st.lists(st.integers(0, 4), min_size=1, max_size=4)
	return st.sampled_from(sorted(FUNCTIONS)).flatmap(lambda n: st.tuples(st.just(n), arguments_of(n), st.lists(variant, min_size=1, max_size=4)))


def whole_temperatures():
	"""Every function at every whole temperature (or other first argument), with integers and decimals mixed."""
	out = []
	for name, ranges in sorted(FUNCTIONS.items()):
		low, high = ranges[0]
		for n in range(low, high + 1, 3):
			rest = [(a + (n * 7) % (b - a + 1)) for a, b in ranges[1:]]
			out.append((name, tuple([n] + rest), [[0], [0, 1], [1, 0], [4, 2, 3]]))
	return out


SWEEP = """
import sys
from decimal import Decimal
sys.path.insert(0, %(repo)r)
from weatherlink import utils
points = [(name, a) for name, firsts, others in %(grid)r for o in others for a in [(Decimal(n) / 10, ) + tuple(o) for n in range(*firsts)]]
results = {}
for k in range(len(points))[::%(step)d]:
	name, a = points[k]
	results[k] = getattr(utils, name)(*a)
for k in range(len(points)):
	print(results[k])
"""


def check_sweep(case, t):
	"""A fine grid of arguments in a fresh process upwards, and in another one downwards."""
	name, firsts, others = case
	results = []
	for step in (1, -1):
		program = SWEEP % {'repo': env.REPO, 'grid': [case], 'step': step}
		p = subprocess.run([sys.executable, '-B', '-X', 'pycache_prefix=/nonexistent-wlv-pycache', '-c', program], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
		t.check(p.returncode == 0, '%s failed in a process of its own: %s', name, p.stderr[-300:])
		results.append(p.stdout.split())
	width = len(range(*firsts))
	for k, (up, down) in enumerate(zip(*results)):
		if up != down:
			t.fail('%s of %s and %s is %s, but %s after calls with other arguments' % (name, Decimal(range(*firsts)[k % width]) / 10, others[k // width], up, down))
	t.nontrivial(len(results[0]) >= 500)


def sweeps():
	out = []
	for name, ranges in sorted(FUNCTIONS.items()):
		low, high = ranges[0]
		others = [()]
		for a, b in ranges[1:]:
			others = [o + (a + (b - a) * k // 4, ) for o in others for k in (0, 2, 3)]
		out.append((name, (low * 10, high * 10 + 1), others))
	return out


PROPERTY = Prop(
	'C41',
	'Every calculation and conversion with the same whole numbers as integers and as decimals in several notations (in mixtures); and series '
	'of up to 10 calls of all kinds, repeated in another order and in up to three threads at once; and a grid of arguments of every '
	'function, upwards in one process and downwards in another. Results are compared as exact numbers, '
	'arguments and decimal settings (also other than the default ones) before and after. Non-trivial: there is a result; at least two calls.',
	[
		Sub('notations', check_notations, notation_cases, quick=3000),
		Sub('whole numbers', check_notations, cases=whole_temperatures),
		Sub('sweeps', check_sweep, cases=sweeps),
		Sub('order', check_order, lambda: st.tuples(st.lists(call(), min_size=1, max_size=10), st.lists(st.integers(0, 9), min_size=3, max_size=10),
			st.sampled_from([0, 0, 0, 1, 3]), st.sampled_from([{}, {}, {'capitals': 0}, {'clamp': 1}, {'Emax': 9999, 'Emin': -9999},
				{'prec': 20}, {'prec': 60}, {'rounding': decimal.ROUND_DOWN}])), quick=1200),
	],
	['With a decimal precision or rounding other than the default, results are compared with each other in the same thread only.'],
)
