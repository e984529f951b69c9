"""Unit conversions."""
from decimal import Decimal
from fractions import Fraction as F

from hypothesis import strategies as st

from wlv import gen, refs
from wlv.core import Prop, Sub, number

import weatherlink.utils as u

# function name: (exact conversion, places, domain)
FUNCTIONS = {
	'convert_fahrenheit_to_kelvin': (refs.fahrenheit_to_kelvin, 3, (-459, 1000)),
	'convert_kelvin_to_fahrenheit': (refs.kelvin_to_fahrenheit, 3, (0, 800)),
	'convert_fahrenheit_to_celsius': (refs.fahrenheit_to_celsius, 3, (-459, 1000)),
	'convert_celsius_to_fahrenheit': (refs.celsius_to_fahrenheit, 3, (-273, 600)),
	'convert_inches_of_mercury_to_kilopascals': (lambda x: refs.frac(x) / F('0.295299830714'), 2, (0, 66)),
	'convert_inches_of_mercury_to_millibars': (lambda x: refs.frac(x) * 10 / F('0.295299830714'), 2, (0, 66)),
	'convert_miles_per_hour_to_meters_per_second': (lambda x: refs.frac(x) * F('0.44704'), 5, (0, 400)),
}
ROUND_TRIPS = (
	('convert_fahrenheit_to_kelvin', 'convert_kelvin_to_fahrenheit'),
	('convert_kelvin_to_fahrenheit', 'convert_fahrenheit_to_kelvin'),
	('convert_fahrenheit_to_celsius', 'convert_celsius_to_fahrenheit'),
	('convert_celsius_to_fahrenheit', 'convert_fahrenheit_to_celsius'),
)


def value(low, high):
	return st.one_of(
		st.integers(low, high),
		gen.decimals(low, high, 1), gen.decimals(low, high, 3), gen.decimals(low, high, 0),
		st.sampled_from([0, 32, 40, 65, 70, 100, 212, Decimal('0'), Decimal('32'), Decimal('0.1')]),
	)


def strategy():
	return st.sampled_from(sorted(FUNCTIONS)).flatmap(lambda n: st.tuples(st.just(n), value(*FUNCTIONS[n][2]), value(*FUNCTIONS[n][2])))


def check(case, t):
	name, a, b = case
	exact, places, _ = FUNCTIONS[name]
	f = getattr(u, name)
	with t.sut(name):
		x, y = f(a), f(b)
	for argument, result in ((a, x), (b, y)):
		t.check(isinstance(result, Decimal), '%s(%r) is %r', name, argument, result)
		allowed = refs.rounded(exact(argument), places, 'nearest')
		t.one_of(number(result), allowed, '%s(%r)' % (name, argument))
		t.eq(result.as_tuple().exponent, -places, 'decimal places of %s(%r)' % (name, argument))
	t.check((a <= b) <= (x <= y), '%s is not monotone: %r -> %r, %r -> %r', name, a, x, b, y)
	t.label(name)
	t.nontrivial(a != b)


def check_round_trip(case, t):
	(there, back), a = case
	with t.sut('%s, %s' % (there, back)):
		result = getattr(u, back)(getattr(u, there)(a))
	t.close(result, a, F(2, 1000), '%r there and back' % (a, ))
	t.nontrivial(a != 0)


def check_same(case, t):
	"""Both pressure conversions agree."""
	with t.sut('pressure'):
		k, m = u.convert_inches_of_mercury_to_kilopascals(case), u.convert_inches_of_mercury_to_millibars(case)
	t.close(m, number(k) * 10, F(6, 100), 'millibars of %r inHg' % (case, ))
	t.nontrivial(case != 0)


def sweep():
	out = []
	for n, (_, _, (low, high)) in sorted(FUNCTIONS.items()):
		for k in range(low * 10, high * 10, 13):
			out.append((n, Decimal(k).scaleb(-1), Decimal(k + 1).scaleb(-1)))
	return out


PROPERTY = Prop(
	'C12',
	'Each conversion function on integers and decimals over the physical range, against exact rational arithmetic rounded to the '
	'documented number of places; monotonicity on pairs; round trips. Non-trivial: the pair differs; the value is not 0.',
	[
		Sub('exact', check, strategy, quick=3000),
		Sub('sweep', check, cases=sweep),
		Sub('round-trip', check_round_trip, lambda: st.sampled_from(ROUND_TRIPS).flatmap(
			lambda p: st.tuples(st.just(p), value(*FUNCTIONS[p[0]][2]))), quick=1000),
		Sub('pressure', check_same, lambda: value(0, 66), quick=500),
	],
	['Rounding of exact halves is not constrained.'],
)
