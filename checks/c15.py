"""Dew point and wet bulb temperature."""
from decimal import Decimal
from fractions import Fraction as F

from hypothesis import strategies as st

from wlv import gen, refs
from wlv.core import Prop, Sub

from weatherlink.utils import calculate_dew_point, calculate_wet_bulb_temperature

TEMPERATURE = st.one_of(gen.decimals(-40, 130), st.integers(-40, 130), gen.decimals(30, 34), st.sampled_from([0, 32, Decimal('0.0'), Decimal('32.0'), -40]))
HUMIDITY = st.one_of(st.integers(1, 100), gen.decimals(1, 100), st.sampled_from([1, 2, 50, 99, 100, Decimal('100.0')]))
PRESSURE = st.one_of(gen.decimals(20, 33, 3), st.integers(20, 33), st.sampled_from([Decimal('29.921'), Decimal('30.000')]))


def decimal_tenth(t, result):
	t.check(isinstance(result, Decimal) and result.as_tuple().exponent == -1, 'the result is %r, not a number of tenths', result)


def check_dew_point(case, t):
	temperature, humidity = case
	with t.sut('calculate_dew_point'):
		result = calculate_dew_point(temperature, humidity)
	decimal_tenth(t, result)
	refs.nearest_tenth(t, result, refs.dew_point, case, 'dew point of %s degrees, %s %%' % case)
	t.check(result <= temperature + Decimal('0.1'), 'the dew point %s is above the temperature %s', result, temperature)
	t.nontrivial(humidity < 100)


def check_wet_bulb(case, t):
	with t.sut('calculate_wet_bulb_temperature'):
		result = calculate_wet_bulb_temperature(*case)
	decimal_tenth(t, result)
	refs.nearest_tenth(t, result, refs.wet_bulb, case, 'wet bulb temperature of %s degrees, %s %%, %s inHg' % case)
	t.nontrivial(case[1] < 100)


def check_saturated(case, t):
	temperature, pressure = case
	with t.sut('calculate_wet_bulb_temperature'):
		result = calculate_wet_bulb_temperature(temperature, 100, pressure)
	t.close(result, temperature, F(11, 100), 'wet bulb temperature of saturated air')
	t.nontrivial()


def check_order(case, t):
	temperature, a, b = case
	a, b = min(a, b), max(a, b)
	with t.sut('dew point'):
		x, y = calculate_dew_point(temperature, a), calculate_dew_point(temperature, b)
	t.check(x <= y, 'the dew point falls from %s to %s when humidity rises from %s to %s at %s degrees', x, y, a, b, temperature)
	t.nontrivial(b > a)


def grid(step_t, step_r):
	return lambda: [(Decimal(k).scaleb(-1), r) for k in range(-400, 1300, step_t) for r in range(1, 101, step_r)]


def grid_wet(step_t, step_r):
	return lambda: [(Decimal(k).scaleb(-1), r, Decimal(p)) for k in range(-400, 1300, step_t) for r in range(1, 101, step_r) for p in ('24.5', '29.92')]


PROPERTY = Prop(
	'C15',
	'Temperatures from -40 to 130, humidities from 1 to 100 % and pressures from 20 to 33 inHg, and grids; the oracle is the '
	'documented formulas at 60 digits, rounded to the nearest tenth, with intermediate values exact or rounded as the conversions document. '
	'Non-trivial: below 100 %.',
	[
		Sub('dew-point', check_dew_point, lambda: st.tuples(TEMPERATURE, HUMIDITY), quick=8000),
		Sub('dew-point-grid', check_dew_point, cases=grid(29, 7), thorough_cases=grid(3, 1)),
		Sub('wet-bulb', check_wet_bulb, lambda: st.tuples(TEMPERATURE, HUMIDITY, PRESSURE), quick=8000),
		Sub('wet-bulb-grid', check_wet_bulb, cases=grid_wet(43, 7), thorough_cases=grid_wet(7, 1)),
		Sub('saturated', check_saturated, lambda: st.tuples(TEMPERATURE, PRESSURE), quick=300),
		Sub('order', check_order, lambda: st.tuples(gen.decimals(-40, 120), st.integers(1, 100), st.integers(1, 100)), quick=800),
	],
	['Humidity of 0 % is outside the domain: the formula takes its logarithm.'],
)
