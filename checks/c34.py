"""What updates to Weather Underground contain."""
import datetime
from decimal import Decimal

from hypothesis import strategies as st

from wlv import archive, refs
from wlv.archive import none_or, tenths
from wlv.core import Prop, Sub, number
from wlv.fakehttp import Server

from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import LoopRecord

SIMPLE = {
	'windspeedmph': 'wind_speed', 'winddir': 'wind_direction_prevailing_degrees', 'windgustmph': 'wind_speed_high',
	'windgustdir': 'wind_direction_speed_high_degrees', 'humidity': 'humidity_outside', 'tempf': 'temperature_outside',
	'baromin': 'barometric_pressure', 'solarradiation': 'solar_radiation', 'UV': 'uv_index', 'indoortempf': 'temperature_inside',
	'indoorhumidity': 'humidity_inside',
}
RAPID = {
	'windspeedmph': 'wind_speed', 'winddir': 'wind_direction_degrees', 'windspdmph_avg2m': 'wind_speed_2_minute_average',
	'windgustmph_10m': 'wind_speed_10_minute_gust', 'windgustdir_10m': 'wind_speed_10_minute_gust_direction_degrees',
	'humidity': 'humidity_outside', 'dewptf': 'dew_point', 'tempf': 'temperature_outside', 'rainin': 'rain_amount_1_hour',
	'dailyrainin': 'rain_amount_today', 'baromin': 'barometric_pressure', 'solarradiation': 'solar_radiation', 'UV': 'uv_index',
	'indoortempf': 'temperature_inside', 'indoorhumidity': 'humidity_inside',
}
# Parameters that carry a meteorological value, here or in the documented protocol
MEANINGS = set(SIMPLE) | set(RAPID) | {'dewptf', 'winddir_avg2m'}
HOSTS = {False: 'weatherstation.wunderground.com', True: 'rtupdate.wunderground.com'}
PATH = '/weatherstation/updateweatherstation.php'
TOLERANCE = refs.HALF_TENTH + refs.INTERMEDIATE

PASSWORD = st.one_of(
	st.text(st.characters(blacklist_categories=('Cs', )), min_size=1, max_size=12),
	st.lists(st.sampled_from(['%', '%25', '%2', '%20', '%2B', '%41', '+', '&', '=', 'a', '7', 'F', ' ', '%%', '&amp;', '\\x41']), min_size=1, max_size=4).map(''.join),
	st.sampled_from(['a&b=c', '100%', '%41', 'a b', 'a+b', 'a#b', '/?;', '=', '&', u'p\xe4ss', 'plain', '"\'', '{0}', '%s']),
)
STATION = st.from_regex(r'\A([A-Z]{4,7}[0-9]{1,4}|[a-z]{4,7}[0-9]{1,4}|[A-Za-z0-9]{1,12})\Z')


def send(t, exporter, rapid, record, what):
	seen = []

	def handler(exchange):
		seen.append(exchange)
		return 200, {'Content-Type': 'text/html'}, b'success'
	with Server(handler):
		with t.sut(what):
			(exporter.send_rapid_update if rapid else exporter.send_simple_update)(record)
	t.eq(len(seen), 1, '%s: requests' % what)
	return seen[0]


def value(t, text, what):
	try:
		return Decimal(text)
	except Exception:
		t.fail('%s is %r, not a number' % (what, text))


def common(t, exchange, rapid, station, password, d, what):
	p = exchange.parameters
	t.eq((exchange.host, exchange.path), (HOSTS[rapid], PATH), '%s: address' % what)
	t.eq(p.get('action'), 'updateraw', '%s: action' % what)
	t.eq(p.get('softwaretype'), 'WeatherLink', '%s: softwaretype' % what)
	t.eq(p.get('ID'), station, '%s: ID' % what)
	t.eq(p.get('PASSWORD'), password, '%s: PASSWORD' % what)
	t.eq(p.get('dateutc'), d.strftime('%Y-%m-%d %H:%M:%S'), '%s: dateutc' % what)
	names = [k for k, _ in exchange.query]
	t.eq(len(names), len(set(names)), '%s: parameters that occur twice in %s' % (what, names))


def mapped(t, parameters, mapping, values, what):
	for name, attribute in sorted(mapping.items()):
		expected, text = values[attribute], parameters.get(name)
		if expected is None:
			t.check(text is None, '%s: %s is missing but %s=%s was sent', what, attribute, name, text)
		else:
			t.check(text is not None, '%s: %s is %s but %s was not sent', what, attribute, expected, name)
			got = value(t, text, '%s: %s' % (what, name))
			t.check(number(got) == number(expected), '%s: %s is %s but %s=%s was sent', what, attribute, expected, name, text)


def check_simple(case, t):
	station, password, records = case
	exporter = WundergroundExporter(station, password)
	exporter.station_time_zone = 'UTC'
	for k, fields in enumerate(records):
		what = 'simple update %d' % (k + 1)
		record = archive.build(fields)
		exchange = send(t, exporter, False, record, what)
		p = exchange.parameters
		common(t, exchange, False, station, password, fields['date'], what)
		for name in archive.DIRECTIONS:
			code = fields[name]
			fields = dict(fields, **{name + '_degrees': None if code is None else 22.5 * code or 360})
		mapped(t, p, SIMPLE, fields, what)
		temperature, humidity = fields['temperature_outside'], fields['humidity_outside']
		if temperature is None or humidity is None:
			t.check('dewptf' not in p, '%s: dewptf=%s was sent without temperature or humidity', what, p.get('dewptf'))
		else:
			t.check('dewptf' in p, '%s: dewptf was not sent', what)
			t.close(value(t, p['dewptf'], 'dewptf'), refs.dew_point(temperature, humidity), TOLERANCE, '%s: dewptf' % what)
		unknown = MEANINGS - set(SIMPLE) - {'dewptf'}
		t.check(not unknown & set(p), '%s: parameters %s without a source', what, sorted(unknown & set(p)))
		present = [a for a in SIMPLE.values() if fields[a] is not None]
		t.nontrivial(0 < len(present) < len(SIMPLE) or any(fields[a] == 0 for a in present))
		t.label('a zero was sent' if any(fields[a] == 0 for a in present) else 'no zero', 'quoted' if not password.isalnum() else 'plain')


def check_rapid(case, t):
	station, password, d, values = case
	exporter = WundergroundExporter(station, password)
	exporter.station_time_zone = 'UTC'
	record = LoopRecord(**values)
	record['date'] = d
	what = 'rapid update'
	exchange = send(t, exporter, True, record, what)
	common(t, exchange, True, station, password, d, what)
	p = exchange.parameters
	mapped(t, p, RAPID, values, what)
	# With a single record in the history, gust and average are that record's wind.
	speed, direction = values['wind_speed'], values['wind_direction_degrees']
	derived = {'gust': speed, 'gust_direction': direction if speed is not None else None, 'average': direction}
	mapped(t, p, {'windgustmph': 'gust', 'windgustdir': 'gust_direction', 'winddir_avg2m': 'average'}, derived, what)
	present = [a for a in RAPID.values() if values[a] is not None]
	t.nontrivial(0 < len(present) < len(RAPID) or any(values[a] == 0 for a in present))
	t.label('a zero was sent' if any(values[a] == 0 for a in present) else 'no zero')


SECONDS = st.integers(0, 10 ** 9).map(lambda s: datetime.datetime(2001, 1, 2) + datetime.timedelta(seconds=s))


def loop_values():
	small = lambda high: st.one_of(st.integers(0, high), st.just(0))  # noqa: E731
	direction = st.one_of(st.integers(1, 360), st.sampled_from([1, 360, 180]))
	d = {a: none_or(s) for a, s in {
		'wind_speed': small(120), 'wind_direction_degrees': direction, 'wind_speed_2_minute_average': tenths(0, 1200),
		'wind_speed_10_minute_gust': tenths(0, 1500), 'wind_speed_10_minute_gust_direction_degrees': direction,
		'humidity_outside': small(100), 'dew_point': st.one_of(st.integers(-40, 100), st.just(0)),
		'temperature_outside': st.one_of(tenths(-400, 1200), st.just(Decimal('0.0'))),
		'rain_amount_1_hour': small(2000).map(lambda n: Decimal(n).scaleb(-2)),
		'rain_amount_today': small(2000).map(lambda n: Decimal(n).scaleb(-2)),
		'barometric_pressure': st.integers(26000, 32000).map(lambda n: Decimal(n).scaleb(-3)), 'solar_radiation': small(1800),
		'uv_index': tenths(0, 160), 'temperature_inside': st.one_of(tenths(-400, 1200), st.just(Decimal('0.0'))),
		'humidity_inside': small(100),
	}.items()}
	return st.fixed_dictionaries(d)


PROPERTY = Prop(
	'C34',
	'Generated archive and loop records with each value present, zero or missing, sent with generated station IDs and passwords (with '
	'reserved characters); the query is decoded independently and every parameter compared. Non-trivial: some value missing or zero.',
	[
		Sub('simple', check_simple, lambda: st.tuples(STATION, PASSWORD, st.lists(archive.fields(), min_size=1, max_size=3)), quick=700),
		Sub('rapid', check_rapid, lambda: st.tuples(STATION, PASSWORD, SECONDS, loop_values()), quick=1200),
	],
	['Station IDs are letters and digits.', 'A humidity of 0 % has no dew point and is not generated for simple updates.',
		'Parameters other than those of the documented mapping are not judged, unless they carry a value the record does not have.'],
)
