"""Wind directions."""
from decimal import Decimal

from checks.c06 import nearest
from wlv import codec
from wlv.core import Prop, Sub

from weatherlink.models import WindDirection


def check_degrees(case, t):
	with t.sut('from_degrees(%r)' % case):
		value = WindDirection.from_degrees(case)
	t.check(value is None or isinstance(value, WindDirection), 'from_degrees(%r) is %r', case, value)
	t.one_of(getattr(value, 'name', None), nearest(int(case)), 'compass point of %r degrees' % case)
	t.nontrivial()


def check_point(case, t):
	code, name = case
	with t.sut('WindDirection'):
		point = WindDirection(code)
		t.check(point.name == name, 'code %d is %s', code, point.name)
		t.check(WindDirection[name] is point, '%s is not unique', name)
		t.eq(point.degrees, codec.direction_degrees(code), 'degrees of %s' % name)
		t.eq(point.value, code, 'code of %s' % name)
		if point.degrees == int(point.degrees):
			t.check(WindDirection.from_degrees(point.degrees) is point, '%r degrees are not %s', point.degrees, name)
		t.check(WindDirection.from_degrees(int(point.degrees)) is point, '%r degrees are not %s', point.degrees, name)
	t.nontrivial()


def check_invalid(case, t):
	t.raises('WindDirection(%r)' % case, ValueError, WindDirection, case)
	t.nontrivial()


def check_sectors(case, t):
	"""Going around the compass, each point comes once, in order."""
	seen = []
	for d in list(range(349, 361)) + list(range(1, 349)):
		with t.sut('from_degrees'):
			name = WindDirection.from_degrees(d).name
		if not seen or seen[-1] != name:
			seen.append(name)
	if seen[0] == 'NNW':
		seen = seen[1:] + ([] if seen[-1] == 'NNW' else ['NNW'])
	t.check(seen == list(codec.DIRECTIONS), 'going around the compass gives %r', seen)
	t.nontrivial()


PROPERTY = Prop(
	'C10',
	'Every whole degree from -400 to 1200 (around 1 to 360 also as float and decimal) and every code 0 to 300, enumerated. Every case is non-trivial.',
	[
		Sub('degrees', check_degrees, cases=lambda: list(range(-400, 1201)) + [65535, 32767, -32768]),
		Sub('other numbers', check_degrees, cases=lambda: [k(d) for k in (float, Decimal) for d in range(-2, 365)]),
		Sub('points', check_point, cases=lambda: list(enumerate(codec.DIRECTIONS))),
		Sub('invalid', check_invalid, cases=lambda: [-1] + list(range(16, 301))),
		Sub('sectors', check_sectors, cases=lambda: [0]),
	],
	['A direction 11.25 degrees from two points rounds to a whole degree 11 or 11.5 degrees from them; either point is accepted.'],
)
