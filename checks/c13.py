"""Heat index."""
from decimal import Decimal
from fractions import Fraction as F

from hypothesis import strategies as st

from wlv import gen, refs
from wlv.core import Prop, Sub, number

from weatherlink.utils import calculate_heat_index as sut

TEMPERATURE = st.one_of(
	gen.decimals(60, 140), st.integers(-60, 150), gen.decimals(76, 90),
	st.sampled_from([Decimal('69.9'), 70, Decimal('70.0'), Decimal('79.9'), 80, Decimal('80.0'), 87, Decimal('87.0'), Decimal('87.1'), 112,
		Decimal('112.0'), Decimal('112.1'), 95, 77, 78, 79]),
)
HUMIDITY = st.one_of(st.integers(0, 100), gen.decimals(0, 100), st.sampled_from([0, 12, 13, 14, 40, 84, 85, 86, 100, Decimal('12.9'), Decimal('85.1')]))


def check(case, t):
	temperature, humidity = case
	with t.sut('calculate_heat_index'):
		result = sut(temperature, humidity)
	expected = refs.heat_index(temperature, humidity)
	if expected is None:
		t.check(result is None, 'there is no heat index below 70 degrees, got %r', result)
		t.label('below 70')
		return
	t.check(isinstance(result, Decimal), 'the result is %r', result)
	t.one_of(number(result), refs.rounded(expected, 1, 'ceiling'), 'heat index of %s degrees, %s %%' % case)
	t.eq(result.as_tuple().exponent, -1, 'decimal places')
	T, R = F(temperature), F(humidity)
	simple = ((T + 61 + (T - 68) * F('1.2') + R * F('0.094')) / 2 + T) / 2 < 80
	t.label('simple formula' if simple else 'dry adjustment' if R < 13 and 80 <= T <= 112 else 'humid adjustment' if R > 85 and 80 <= T <= 87 else 'regression')
	t.nontrivial(not simple)


def check_humidity(case, t):
	"""More humid air never feels cooler (above 80 degrees, up to the regression's 110)."""
	temperature, a, b = case
	a, b = min(a, b), max(a, b)
	with t.sut('calculate_heat_index'):
		x, y = sut(temperature, a), sut(temperature, b)
	t.check(x <= y, 'at %s degrees, %s %% feels like %s but %s %% like %s', temperature, a, x, b, y)
	t.nontrivial(b - a >= 5)


def sweep(step_t, step_r):
	return lambda: [(Decimal(k).scaleb(-1), r) for k in range(695, 1405, step_t) for r in range(0, 101, step_r)]


PROPERTY = Prop(
	'C13',
	'Temperatures from -60 to 150 and humidities from 0 to 100 %, integers and tenths, concentrated at the formula\'s thresholds, and '
	'a grid; the oracle is the National Weather Service formula in exact rational arithmetic, rounded up to a tenth. Non-trivial: '
	'the regression applies.',
	[
		Sub('exact', check, lambda: st.tuples(TEMPERATURE, HUMIDITY), quick=4000),
		Sub('grid', check, cases=sweep(7, 3), thorough_cases=sweep(1, 1)),
		# so close to where the formula changes that no measurement would show it
		Sub('thresholds', check, lambda: st.tuples(st.tuples(st.sampled_from([70, 77, 78, 79, 80, 87, 95, 112]), st.integers(-60, 60)).map(lambda x: x[0] + Decimal(x[1]).scaleb(-3)),
			st.tuples(st.sampled_from([0, 5, 13, 13, 40, 85, 85, 100]), st.integers(-60, 60)).map(lambda x: min(Decimal(100), max(Decimal(0), x[0] + Decimal(x[1]).scaleb(-3))))), quick=1500),
		Sub('fractions', check, lambda: st.tuples(gen.decimals(70, 130, 3), gen.decimals(0, 100, 2)), quick=800),
	],
)
