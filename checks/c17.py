"""Degree days."""
from decimal import Decimal

from hypothesis import strategies as st

from wlv import gen, refs
from wlv.core import Prop, Sub, number

from weatherlink.utils import calculate_cooling_degree_days, calculate_heating_degree_days


def check(case, t):
	with t.sut('degree days'):
		heating, cooling = calculate_heating_degree_days(case), calculate_cooling_degree_days(case)
	h, c = refs.degree_days(case)
	t.eq(None if heating is None else number(heating), h, 'heating degree days of %s' % case)
	t.eq(None if cooling is None else number(cooling), c, 'cooling degree days of %s' % case)
	t.check(heating is None or cooling is None, 'both heating and cooling')
	t.label('heating' if heating is not None else 'cooling' if cooling is not None else 'neither')
	t.nontrivial(case != 65)


PROPERTY = Prop(
	'C17',
	'Average temperatures from -60 to 140 with up to five decimals, and every tenth of the range. Non-trivial: not exactly 65.',
	[
		Sub('any', check, lambda: st.one_of(gen.decimals(-60, 140, 5), gen.decimals(64, 66, 5), st.integers(-60, 140)), quick=1000),
		Sub('tenths', check, cases=lambda: [Decimal(k).scaleb(-1) for k in range(-600, 1401)] + [65, Decimal('65.00000'), Decimal('64.99999'), Decimal('65.00001')]),
	],
)
