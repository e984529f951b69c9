"""Rain collectors."""
from decimal import Decimal
from fractions import Fraction as F

from hypothesis import strategies as st

from wlv.core import Prop, Sub, number

from weatherlink.models import RainCollectorTypeDatabase, RainCollectorTypeSerial

# (enum, member) -> code, unit, amount per click
TYPES = {
	('serial', 'inches_0_01'): (0x00, 'in', F(1, 100)),
	('serial', 'millimeters_0_2'): (0x10, 'cm', F(2, 100)),
	('serial', 'millimeters_0_1'): (0x20, 'cm', F(1, 100)),
	('database', 'inches_0_1'): (0x0000, 'in', F(1, 10)),
	('database', 'inches_0_01'): (0x1000, 'in', F(1, 100)),
	('database', 'millimeters_0_2'): (0x2000, 'cm', F(2, 100)),
	('database', 'millimeters_1_0'): (0x3000, 'cm', F(1, 10)),
	('database', 'millimeters_0_1'): (0x6000, 'cm', F(1, 100)),
}
INCHES_PER_CENTIMETER = F('0.393701')
ENUMS = {'serial': RainCollectorTypeSerial, 'database': RainCollectorTypeDatabase}


def close(t, actual, expected, what):
	"""By the documented factor, of which a quotient can only be stored rounded."""
	a = number(actual)
	t.check(a is not None and abs(a - expected) <= abs(expected) * F(1, 10 ** 15), '%s: expected %s, got %r', what, float(expected), actual)


def check(case, t):
	(kind, name), clicks, as_decimal = case
	code, unit, amount = TYPES[(kind, name)]
	argument = Decimal(clicks) if as_decimal else clicks
	clicks = number(argument)
	with t.sut('%s.%s' % (kind, name)):
		member = ENUMS[kind](code)
		t.check(member.name == name, 'code 0x%x is %s instead of %s', code, member.name, name)
		inches = member.clicks_to_inches(argument)
		centimeters = member.clicks_to_centimeters(argument)
	t.check(isinstance(inches, Decimal) and isinstance(centimeters, Decimal), 'amounts are %r and %r', inches, centimeters)
	what = '%s clicks of %s.%s' % (argument, kind, name)
	if unit == 'in':
		t.eq(inches, clicks * amount, what + ' in inches')
		close(t, centimeters, clicks * amount / INCHES_PER_CENTIMETER, what + ' in centimeters')
	else:
		t.eq(centimeters, clicks * amount, what + ' in centimeters')
		close(t, inches, clicks * amount * INCHES_PER_CENTIMETER, what + ' in inches')
	t.label('%s.%s' % (kind, name))
	t.nontrivial(clicks > 0)


def sweep(values):
	return lambda: [(k, c, bool(c % 2)) for k in sorted(TYPES) for c in values]


def check_invalid(case, t):
	kind, code = case
	t.raises('%s code %r' % (kind, code), ValueError, ENUMS[kind], code)
	t.nontrivial()


PROPERTY = Prop(
	'C11',
	'Every collector type with every number of clicks 0-1023 and every 61st to 65535 (thorough: all), and generated larger and fractional ones (means). '
	'Non-trivial: at least one click.',
	[
		Sub('sweep', check, cases=sweep(list(range(1024)) + list(range(1024, 65536, 61)) + [4095, 4096, 65535]), thorough_cases=sweep(range(65536))),
		Sub('any', check, lambda: st.tuples(st.sampled_from(sorted(TYPES)), st.integers(0, 10 ** 7), st.booleans()), quick=500),
		Sub('means', check, lambda: st.tuples(st.sampled_from(sorted(TYPES)), st.integers(1, 10 ** 6).map(lambda n: Decimal(n).scaleb(-3)), st.just(True)), quick=300),
		Sub('invalid', check_invalid, cases=lambda: [('serial', c) for c in range(256) if c not in (0, 0x10, 0x20)] +
			[('database', c << 12) for c in range(16) if c << 12 not in (0, 0x1000, 0x2000, 0x3000, 0x6000)]),
	],
)
