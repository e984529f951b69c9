"""THW and THSW index."""
from decimal import Decimal

from hypothesis import strategies as st

from checks.c13 import HUMIDITY, TEMPERATURE
from checks.c14 import WIND
from checks.c15 import decimal_tenth
from wlv import gen, refs
from wlv.core import Prop, Sub, number

from weatherlink.utils import calculate_heat_index, calculate_thsw_index, calculate_thw_index

SOLAR = st.one_of(st.integers(0, 1800), st.sampled_from([0, 1, 500, 1000, Decimal('500')]))
ANY_TEMPERATURE = st.one_of(gen.decimals(-40, 130), st.integers(-40, 130))

def check_thw(case, t):
	with t.sut('calculate_thw_index'):
		result = calculate_thw_index(*case)
	t.one_of(None if result is None else number(result), refs.thw_results(*case), 'THW index of %s degrees, %s %%, %s mph' % case)
	if result is not None:
		decimal_tenth(t, result)
	t.label('none' if result is None else 'calm' if case[2] == 0 else 'wind')
	t.nontrivial(result is not None and case[2] > 0)


def check_thw_laws(case, t):
	temperature, humidity, a, b = case
	a, b = min(a, b), max(a, b)
	with t.sut('THW'):
		calm = calculate_thw_index(temperature, humidity, 0)
		x, y = calculate_thw_index(temperature, humidity, a), calculate_thw_index(temperature, humidity, b)
		hi = calculate_heat_index(temperature, humidity)
	t.eq(calm, hi, 'THW index of calm air against the heat index')
	if hi is not None:
		t.check(y <= x <= calm, 'THW index %s calm, %s at %s mph, %s at %s mph', calm, x, a, y, b)
	t.nontrivial(hi is not None and a != b)


def check_thsw(case, t):
	with t.sut('calculate_thsw_index'):
		result = calculate_thsw_index(*case)
	decimal_tenth(t, result)
	refs.nearest_tenth(t, result, refs.thsw, case, 'THSW index of %s degrees, %s %%, %s W/m2, %s mph' % case)
	t.nontrivial(case[2] > 0 and case[3] > 0)


def check_thsw_laws(case, t):
	temperature, humidity, (s1, s2), (w1, w2) = case
	s1, s2, w1, w2 = min(s1, s2), max(s1, s2), min(w1, w2), max(w1, w2)
	with t.sut('THSW'):
		base = calculate_thsw_index(temperature, humidity, s1, w1)
		sunnier = calculate_thsw_index(temperature, humidity, s2, w1)
		windier = calculate_thsw_index(temperature, humidity, s1, w2)
	t.check(sunnier >= base, '%s W/m2 feels like %s but %s W/m2 like %s', s1, base, s2, sunnier)
	t.check(windier <= base, '%s mph feels like %s but %s mph like %s', w1, base, w2, windier)
	t.nontrivial(s1 != s2 and w1 != w2)


PROPERTY = Prop(
	'C16',
	'Generated temperature, humidity, radiation and wind over the physical range; the oracle is the documented formulas (THW exactly, '
	'THSW at 60 digits, rounded to the nearest tenth, with intermediate values exact or rounded as the conversions document) and their order. '
	'Non-trivial: there is an index and wind (and sun).',
	[
		Sub('thw', check_thw, lambda: st.tuples(TEMPERATURE, HUMIDITY, WIND), quick=8000),
		Sub('thw-laws', check_thw_laws, lambda: st.tuples(TEMPERATURE, HUMIDITY, WIND, WIND), quick=500),
		Sub('thsw', check_thsw, lambda: st.tuples(ANY_TEMPERATURE, st.integers(0, 100), SOLAR, WIND), quick=8000),
		Sub('thsw-laws', check_thsw_laws, lambda: st.tuples(ANY_TEMPERATURE, st.integers(0, 100), st.tuples(SOLAR, SOLAR), st.tuples(WIND, WIND)), quick=500),
	],
)
