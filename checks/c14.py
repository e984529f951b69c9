"""Wind chill."""
from decimal import Decimal

from hypothesis import strategies as st

from wlv import gen, refs
from wlv.core import Prop, Sub, number

from weatherlink.utils import calculate_wind_chill as sut

NEAR = st.tuples(st.sampled_from([40, 0]), st.integers(-60, 150)).map(lambda x: x[0] + Decimal(x[1]).scaleb(-3))
TEMPERATURE = st.one_of(NEAR, gen.decimals(-60, 45), st.integers(-80, 60), st.sampled_from([40, Decimal('40.0'), Decimal('40.1'), 41, 0, Decimal('0.0')]))
WIND = st.one_of(st.integers(0, 120), gen.decimals(0, 120), st.sampled_from([0, 1, 2, 3, 4, 5, Decimal('0'), Decimal('0.0'), Decimal('0.1')]))


def check(case, t):
	temperature, wind = case
	with t.sut('calculate_wind_chill'):
		result = sut(temperature, wind)
	allowed = refs.wind_chill_results(temperature, wind)
	t.one_of(None if result is None else number(result), allowed, 'wind chill of %s degrees, %s mph' % case)
	if result is None:
		t.label('above 40')
		return
	t.check(result <= temperature, 'the wind chill %s exceeds the air temperature %s', result, temperature)
	t.label('calm' if wind == 0 else 'capped at the air temperature' if result == temperature else 'chilled')
	t.nontrivial(result < temperature)


def check_monotone(case, t):
	temperature, a, b = case
	a, b = min(a, b), max(a, b)
	with t.sut('calculate_wind_chill'):
		x, y = sut(temperature, a), sut(temperature, b)
	t.check(y <= x, 'at %s degrees, %s mph feels like %s but %s mph like %s', temperature, a, x, b, y)
	t.nontrivial(x != y)


def check_temperature(case, t):
	a, b, wind = case
	a, b = min(a, b), max(a, b)
	with t.sut('calculate_wind_chill'):
		x, y = sut(a, wind), sut(b, wind)
	t.check(x <= y, 'at %s mph, %s degrees feels like %s but %s degrees like %s', wind, a, x, b, y)
	t.nontrivial(x != y)


def sweep(step_t, step_w):
	return lambda: [(Decimal(k).scaleb(-1), w) for k in range(-500, 412, step_t) for w in range(0, 101, step_w)]


PROPERTY = Prop(
	'C14',
	'Temperatures from -80 to 60 and winds from 0 to 120 mph, integers and tenths, and a grid; the oracle is the National Weather '
	'Service formula at 60 digits, rounded down to a tenth and never above the air temperature. Non-trivial: the result is below '
	'the air temperature; the compared results differ.',
	[
		Sub('exact', check, lambda: st.tuples(TEMPERATURE, WIND), quick=3000),
		Sub('grid', check, cases=sweep(11, 3), thorough_cases=sweep(1, 1)),
		Sub('monotone-in-wind', check_monotone, lambda: st.tuples(gen.decimals(-50, 40), st.integers(0, 110), st.integers(0, 110)), quick=800),
		Sub('monotone-in-temperature', check_temperature, lambda: st.tuples(gen.decimals(-50, 40), gen.decimals(-50, 40), st.integers(0, 110)), quick=800),
	],
)
