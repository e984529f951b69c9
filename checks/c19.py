"""Derived values of an archive record."""
from decimal import Decimal

from hypothesis import strategies as st

from wlv.core import Prop, Sub, number, show

from weatherlink import utils
from weatherlink.models import ArchiveIntervalRecord

TEMPERATURES = ('temperature_outside', 'temperature_outside_low', 'temperature_outside_high')


def minima(required, optional):
	"""What the lowest value may be: of the required candidates, with or without each optional one."""
	if not required:
		return {None} | set(optional)
	low = min(required)
	return {low} | {o for o in optional if o < low}


def maxima(required, optional):
	if not required:
		return {None} | set(optional)
	high = max(required)
	return {high} | {o for o in optional if o > high}


def expected(r):
	"""For each derived value, the set of acceptable results (None: absent)."""
	temps = [r[k] for k in TEMPERATURES]
	humidity, pressure = r['humidity_outside'], r['barometric_pressure']
	ws, wsh, solar, solar_high = r['wind_speed'], r['wind_speed_high'], r['solar_radiation'], r['solar_radiation_high']
	present = [x for x in temps if x is not None]
	out = {}

	for k in range(3):
		key = ('temperature_wet_bulb', 'temperature_wet_bulb_low', 'temperature_wet_bulb_high')[k]
		known = humidity and pressure and temps[k] is not None
		out[key] = {utils.calculate_wet_bulb_temperature(temps[k], humidity, pressure)} if known else {None}

	def index(name, required, optional, current):
		required = [x for x in required if x is not None]
		optional = [x for x in optional if x is not None]
		out[name + '_low'] = minima(required, optional)
		out[name + '_high'] = maxima(required, optional)
		if current is not None:
			out[name] = {current}
		else:
			out[name] = {None} | set(required) | set(optional)

	dew = [utils.calculate_dew_point(x, humidity) for x in present] if humidity else []
	index('dew_point_outside', dew, [], utils.calculate_dew_point(temps[0], humidity) if humidity and temps[0] is not None else None)
	heat = [utils.calculate_heat_index(x, humidity) for x in present] if humidity else []
	index('heat_index_outside', heat, [], utils.calculate_heat_index(temps[0], humidity) if humidity and temps[0] is not None else None)

	inside = r['humidity_inside'] and r['temperature_inside'] is not None
	out['dew_point_inside'] = {utils.calculate_dew_point(r['temperature_inside'], r['humidity_inside']) if inside else None}
	out['heat_index_inside'] = {utils.calculate_heat_index(r['temperature_inside'], r['humidity_inside']) if inside else None}

	winds = [w for w in (ws, wsh) if w]
	calm = [0] if len(winds) < 2 else []
	index(
		'wind_chill',
		[utils.calculate_wind_chill(x, w) for x in present for w in winds],
		[utils.calculate_wind_chill(x, w) for x in present for w in calm],
		utils.calculate_wind_chill(temps[0], ws) if ws and temps[0] is not None else None,
	)

	known = [w for w in (ws, wsh) if w is not None]
	missing = [0] if len(known) < 2 else []
	index(
		'thw_index',
		[utils.calculate_thw_index(x, humidity, w) for x in present for w in known] if humidity else [],
		[utils.calculate_thw_index(x, humidity, w) for x in present for w in missing] if humidity else [],
		utils.calculate_thw_index(temps[0], humidity, ws) if humidity and ws is not None and temps[0] is not None else None,
	)

	suns = [s for s in (solar, solar_high) if s]
	dark = [s for s in (solar, solar_high) if s is not None and not s]
	index(
		'thsw_index',
		[utils.calculate_thsw_index(x, humidity, s, w) for x in present for s in suns for w in known] if humidity else [],
		[utils.calculate_thsw_index(x, humidity, s, w) for x in present for s in suns + dark for w in [0] + known
			if s in dark or w in missing] if humidity else [],
		utils.calculate_thsw_index(temps[0], humidity, solar, ws) if humidity and solar and ws is not None and temps[0] is not None else None,
	)
	return out


def check(case, t):
	record = ArchiveIntervalRecord(**case)
	with t.sut('calculate_all_record_values'):
		result = utils.calculate_all_record_values(record)
	for key, allowed in expected(case).items():
		t.one_of(result.get(key), allowed, '%s of %s' % (key, show(case)))
	run = result.get('wind_run_distance_total')
	if case['wind_speed']:
		t.close(run, number(case['wind_speed']) * number(case['minutes_covered']) / 60, Decimal('0.000001'), 'wind run')
	elif case['wind_speed'] is None:
		t.check(run is None, 'wind run of unknown wind: %r', run)
	else:
		t.check(not run, 'wind run of calm wind: %r', run)
	t.eq(dict(record), dict(case), 'the record itself')
	derived = [k for k in result if result[k] is not None]
	t.label('%d to %d values' % (len(derived) // 8 * 8, len(derived) // 8 * 8 + 7))
	if any(case[k] is not None and case[k] == 0 for k in TEMPERATURES):
		t.label('zero temperature')
	t.nontrivial(len(derived) >= 8)


TENTHS = st.integers(1, 900).map(lambda n: Decimal(n).scaleb(-1))  # as .wlk files have them
WIND = st.one_of(st.integers(1, 90), st.sampled_from([0, 1, 3, Decimal('0'), Decimal('12'), Decimal('0.4'), Decimal('2.9'), Decimal('3.1')]),
	st.integers(1, 90).map(Decimal), TENTHS)
SOLAR = st.one_of(st.integers(1, 1800), st.sampled_from([0, 1, 700]))
HUMIDITY = st.one_of(st.integers(1, 100), st.sampled_from([12, 13, 14, 85, 86, 100, 1, Decimal('0.6'), Decimal('12.9'), Decimal('85.1')]), TENTHS)


@st.composite
def record(draw):
	center = draw(st.one_of(st.integers(-400, 1250), st.sampled_from([0, 1, -1, 400, 401, 399, 699, 700, 701, 799, 800])))
	d = {
		'temperature_outside': Decimal(center).scaleb(-1),
		'temperature_outside_low': Decimal(center - draw(st.sampled_from([0, 1, 7, 60]))).scaleb(-1),
		'temperature_outside_high': Decimal(center + draw(st.sampled_from([0, 1, 9, 60]))).scaleb(-1),
		'temperature_inside': Decimal(draw(st.one_of(st.integers(300, 1100), st.integers(-5, 5), st.integers(695, 705)))).scaleb(-1),
		'humidity_outside': draw(HUMIDITY),
		'humidity_inside': draw(HUMIDITY),
		'barometric_pressure': Decimal(draw(st.integers(26000, 32000))).scaleb(-3),
		'wind_speed': draw(WIND),
		'wind_speed_high': draw(WIND),
		'solar_radiation': draw(SOLAR),
		'solar_radiation_high': draw(SOLAR),
		'minutes_covered': draw(st.sampled_from([1, 5, 10, 15, 30, 60, 120])),
	}
	swap = draw(st.integers(0, 9))
	if swap == 0:  # measurements need not be ordered
		d['temperature_outside_low'], d['temperature_outside_high'] = d['temperature_outside_high'], d['temperature_outside_low']
	keys = sorted(k for k in d if k != 'minutes_covered')
	if draw(st.booleans()):
		for k in draw(st.lists(st.sampled_from(keys), max_size=4)):
			d[k] = None
	elif draw(st.booleans()):
		for k in draw(st.sampled_from([TEMPERATURES, ('humidity_outside', 'humidity_inside'), ('wind_speed', 'wind_speed_high'),
				('solar_radiation', 'solar_radiation_high'), TEMPERATURES[1:], TEMPERATURES[:2], ('temperature_inside', 'barometric_pressure')])):
			d[k] = None
	return d


PROPERTY = Prop(
	'C19',
	'Generated records (temperatures around each threshold and zero, winds and radiation with zeros, any fields missing); the oracle '
	'composes the single formulas, which C13 to C16 judge by themselves. Non-trivial: at least eight derived values.',
	[Sub('record', check, record, quick=2500)],
	['With a zero or missing wind or radiation, using it as zero and leaving it out are both accepted for lows and highs.',
		'A current value whose own inputs are missing may be absent or any of its candidates.'],
)
