"""
Reference formulas, in exact rational arithmetic where the formula allows it and 60-digit decimals elsewhere. Each
returns the unrounded value; `rounded` gives every acceptable rounding of it.
"""
import decimal
from decimal import Decimal
from fractions import Fraction as F

CTX = decimal.Context(prec=60)

EPSILON = F(1, 10 ** 12)


def frac(x):
	return F(x) if not isinstance(x, Decimal) else F(x)


def dec(x):
	x = frac(x)
	return CTX.divide(Decimal(x.numerator), Decimal(x.denominator))


def rounded(value, places, how, slack=EPSILON):
	"""
	The set of acceptable results of rounding `value` (Fraction) to `places` decimals: one result, or two if the value is
	within `slack` of the boundary between them. how: 'nearest', 'ceiling', 'floor'.
	"""
	scale = 10 ** places
	out = set()
	for v in (value - slack, value, value + slack):
		s = v * scale
		if how == 'ceiling':
			n = -((-s.numerator) // s.denominator)
		elif how == 'floor':
			n = s.numerator // s.denominator
		else:
			n = (2 * s.numerator + s.denominator) // (2 * s.denominator)
			if (s * 2).denominator == 1 and (s * 2).numerator % 2:  # exactly half: either neighbour (rounding mode unspecified)
				out.add(F(n - 1, scale))
		out.add(F(n, scale))
	return out


def fahrenheit_to_celsius(t):
	return (frac(t) - 32) * F(5, 9)


def celsius_to_fahrenheit(t):
	return frac(t) * F(9, 5) + 32


def fahrenheit_to_kelvin(t):
	return (frac(t) + F('459.67')) * F(5, 9)


def kelvin_to_fahrenheit(t):
	return frac(t) * F(9, 5) - F('459.67')


INHG_PER_KPA = F('0.295299830714')


def heat_index(t, rh):
	"""NWS heat index: the simple average formula below 80, the Rothfusz regression with adjustments above. Unrounded."""
	T, R = frac(t), frac(rh)
	if T < 70:
		return None
	simple = (T + 61 + (T - 68) * F('1.2') + R * F('0.094')) / 2
	average = (simple + T) / 2
	if average < 80:
		return average
	hi = (
		F('-42.379') + F('2.04901523') * T + F('10.14333127') * R - F('0.22475541') * T * R - F('0.00683783') * T ** 2 -
		F('0.05481717') * R ** 2 + F('0.00122874') * T ** 2 * R + F('0.00085282') * T * R ** 2 -
		F('0.00000199') * T ** 2 * R ** 2
	)
	if R < 13 and 80 <= T <= 112:
		hi -= (13 - R) / 4 * frac(CTX.sqrt(dec((17 - abs(T - 95)) / 17)))
	elif R > 85 and 80 <= T <= 87:
		hi += (R - 85) / 10 * (87 - T) / 5
	return hi


def wind_chill(t, ws):
	"""NWS wind chill before rounding, or None above 40 degrees; the air temperature when calm."""
	T, W = frac(t), frac(ws or 0)
	if T > 40:
		return None
	if W == 0:
		return T
	v = frac(CTX.power(dec(W), Decimal('0.16')))
	return F('35.74') + F('0.6215') * T - F('35.75') * v + F('0.4275') * T * v


def wind_chill_results(t, ws):
	"""Acceptable rounded results: rounded down to a tenth, never above the air temperature."""
	wc = wind_chill(t, ws)
	if wc is None:
		return {None}
	T = frac(t)
	if frac(ws or 0) == 0:
		return {T}
	return {min(T, r) for r in rounded(wc, 1, 'floor')}


def _celsius(t, documented):
	"""Exactly, or rounded to the three places that the library's conversion documents."""
	c = fahrenheit_to_celsius(t)
	return CTX.quantize(dec(c), Decimal('0.001')) if documented else dec(c)


def dew_point(t, rh, documented=False):
	"""August-Roche-Magnus with the Bogel modification; degrees Fahrenheit, unrounded."""
	T = _celsius(t, documented)
	R = dec(rh)
	with decimal.localcontext(CTX):
		gamma = (R / 100 * ((Decimal('17.67') - T / Decimal('234.5')) * (T / (Decimal('243.5') + T))).exp()).ln()
		return celsius_to_fahrenheit(Decimal('243.5') * gamma / (Decimal('17.67') - gamma))


def wet_bulb(t, rh, inhg, documented=False):
	T = _celsius(t, documented)
	P = dec(frac(inhg) / INHG_PER_KPA * 10)
	if documented:
		P = CTX.quantize(P, Decimal('0.01'))
	with decimal.localcontext(CTX):
		x = 1 - dec(rh) / 100
		td = T - (Decimal('14.55') + Decimal('0.114') * T) * x - ((Decimal('2.5') + Decimal('0.007') * T) * x) ** 3 - \
			(Decimal('15.9') + Decimal('0.117') * T) * x ** 14
		e = Decimal('6.11') * Decimal(10) ** (Decimal('7.5') * td / (Decimal('237.7') + td))
		d = 4098 * e / (td + Decimal('237.7')) ** 2
		g = Decimal('0.00066') * P
		return celsius_to_fahrenheit((g * T + d * td) / (g + d))


def thw_results(t, rh, ws):
	hi = heat_index(t, rh)
	if hi is None:
		return {None}
	reductions = rounded(F('1.072') * frac(ws or 0), 1, 'ceiling')
	return {h - r for h in rounded(hi, 1, 'ceiling') for r in reductions}


def thsw(t, rh, solar, ws, documented=False):
	"""Steadman apparent temperature (Australian Bureau of Meteorology) with radiation, degrees Fahrenheit, unrounded."""
	T = _celsius(t, documented)
	W = dec(frac(ws or 0) * F('0.44704'))
	if documented:
		W = CTX.quantize(W, Decimal('0.00001'))
	S = dec(solar or 0)
	with decimal.localcontext(CTX):
		q = S * Decimal('0.25') / 7 + S / 28
		e = dec(rh) / 100 * Decimal('6.105') * (Decimal('17.27') * T / (Decimal('237.7') + T)).exp()
		at = T + Decimal('0.348') * e - Decimal('0.70') * W + Decimal('0.70') * q / (W + 10) - Decimal('4.25')
		return celsius_to_fahrenheit(at)


def nearest_tenth(t, result, formula, case, what):
	"""
	Fails unless the result is a formula's value rounded to the nearest tenth. Intermediate values may be exact or rounded to the
	places the library's conversions document (the last one to a thousandth of a degree).
	"""
	values = [frac(formula(*case)), frac(formula(*case, documented=True))]
	slack = HALF_TENTH + F(51, 100000)
	t.check(min(values) - slack <= frac(result) <= max(values) + slack, '%s: %s instead of %.6f', what, result, float(values[0]))


# Rounding error that the library's rounded intermediate values may add, in degrees Fahrenheit
INTERMEDIATE = F(1, 100)
HALF_TENTH = F(1, 20)


def degree_days(average):
	a = frac(average)
	return (65 - a if a < 65 else None), (a - 65 if a > 65 else None)


def ten_minute_average(records):
	"""
	records: (speed, direction, end of period, whole minutes covered <= 10). Returns None, or (maximum average,
	acceptable directions, first minute, last minute) of the earliest best window of ten recorded minutes that ends where
	a record ends.
	"""
	minutes = []
	best = None
	for speed, direction, end, covered in records:
		if covered > 10:
			return None
	import datetime
	for speed, direction, end, covered in records:
		for i in range(covered - 1, -1, -1):
			minutes.append((frac(speed or 0), direction, end - datetime.timedelta(minutes=i)))
		if len(minutes) >= 10:
			window = minutes[-10:]
			average = sum(m[0] for m in window) / 10
			if average > 0 and (best is None or average > best[0]):
				best = (average, window)
	if best is None:
		return None
	average, window = best
	counts = {}
	for _, d, _ in window:
		counts[d] = counts.get(d, 0) + 1
	top = max(counts.values())
	return average, {d for d, c in counts.items() if c == top}, window[0][2], window[-1][2]
