"""Archive records as the exporters take them, and rows as the database holds them."""
import datetime
from decimal import Decimal

from hypothesis import strategies as st

from wlv import codec, fakedb, gen

SIMPLE = {
	# record attribute: archive column
	'timestamp': 'timestamp_weatherlink',
	'date': 'timestamp_station',
	'minutes_covered': 'minutes_covered',
	'temperature_outside': 'temperature_outside',
	'temperature_outside_low': 'temperature_outside_low',
	'temperature_outside_high': 'temperature_outside_high',
	'temperature_inside': 'temperature_inside',
	'humidity_outside': 'humidity_outside',
	'humidity_inside': 'humidity_inside',
	'barometric_pressure': 'barometric_pressure',
	'wind_speed': 'wind_speed',
	'wind_speed_high': 'wind_speed_high',
	'rain_amount': 'rain_total',
	'rain_rate': 'rain_rate_high',
	'rain_amount_clicks': 'rain_clicks',
	'rain_rate_clicks': 'rain_click_rate_high',
	'solar_radiation': 'solar_radiation',
	'solar_radiation_high': 'solar_radiation_high',
	'uv_index': 'uv_index',
	'uv_index_high': 'uv_index_high',
	'evapotranspiration': 'evapotranspiration',
}

DIRECTIONS = {
	'wind_direction_prevailing': 'wind_speed_direction',
	'wind_direction_speed_high': 'wind_speed_high_direction',
}

CALCULATED = (
	'temperature_wet_bulb', 'temperature_wet_bulb_low', 'temperature_wet_bulb_high', 'dew_point_outside', 'dew_point_outside_low',
	'dew_point_outside_high', 'dew_point_inside', 'heat_index_outside', 'heat_index_outside_low', 'heat_index_outside_high',
	'heat_index_inside', 'wind_chill', 'wind_chill_low', 'wind_chill_high', 'thw_index', 'thw_index_low', 'thw_index_high',
	'thsw_index', 'thsw_index_low', 'thsw_index_high', 'wind_run_distance_total',
)

DATE_PARTS = ('timestamp_utc', 'summary_year', 'summary_month', 'summary_day')

OPTIONAL = [k for k in SIMPLE if k not in ('timestamp', 'date', 'minutes_covered')] + list(DIRECTIONS)


def tenths(low, high):
	return st.integers(low, high).map(lambda n: Decimal(n).scaleb(-1))


def none_or(strategy):
	return st.one_of(strategy, strategy, strategy, st.none())


TEMPERATURE = st.one_of(tenths(-400, 1200), st.sampled_from([Decimal('0.0'), Decimal('-40.0'), Decimal('-40.1'), Decimal('-58.3'), Decimal('130.0')]))


def fields(dates=None):
	"""A case for one record: plain values; `direction` codes 0..15 or None."""
	small = lambda high: st.one_of(st.integers(0, high), st.sampled_from([0, 1]))  # noqa: E731
	d = {
		'date': dates or gen.minute_datetimes(datetime.datetime(2001, 1, 2), datetime.datetime(2062, 12, 30)),
		'minutes_covered': st.sampled_from([1, 5, 10, 15, 30, 60, 120]),
		'temperature_outside': none_or(TEMPERATURE),
		'temperature_outside_low': none_or(TEMPERATURE),
		'temperature_outside_high': none_or(TEMPERATURE),
		'temperature_inside': none_or(tenths(300, 1200)),
		'humidity_outside': none_or(st.integers(1, 100)),
		'humidity_inside': none_or(st.integers(1, 100)),
		'barometric_pressure': none_or(st.integers(26000, 32000).map(lambda n: Decimal(n).scaleb(-3))),
		'wind_speed': none_or(small(90)),
		'wind_speed_high': none_or(small(150)),
		'rain_amount_clicks': small(400),
		'rain_rate_clicks': small(5000),
		'solar_radiation': none_or(small(1800)),
		'solar_radiation_high': none_or(small(1800)),
		'uv_index': none_or(tenths(0, 160)),
		'uv_index_high': none_or(tenths(0, 160)),
		'evapotranspiration': none_or(small(200).map(lambda n: Decimal(n).scaleb(-3))),
		'wind_direction_prevailing': none_or(st.integers(0, 15)),
		'wind_direction_speed_high': none_or(st.integers(0, 15)),
	}
	return st.fixed_dictionaries(d)


def build(case):
	"""The library's record for a case."""
	from weatherlink.models import ArchiveIntervalRecord, RainCollectorTypeSerial, WindDirection
	d = dict(case)
	d.setdefault('timestamp', codec.timestamp(d['date']))
	d.setdefault('rain_amount', Decimal(d['rain_amount_clicks']).scaleb(-2))
	d.setdefault('rain_rate', Decimal(d['rain_rate_clicks']).scaleb(-2))
	d['rain_collector_type'] = RainCollectorTypeSerial.inches_0_01
	for k in DIRECTIONS:
		v = d.get(k)
		d[k] = None if v is None else WindDirection(v)
		d[k + '_degrees'] = None if v is None else WindDirection(v).degrees
	return ArchiveIntervalRecord(**d)


def stored(table, column, value):
	"""What reading the column back gives after storing the value."""
	c = [c for c in table.columns if c.name == column][0]
	return fakedb.from_sqlite(fakedb.convert(c, fakedb.to_sqlite_exact(value)))


def minimal_row(when, **values):
	"""An archive row to insert directly."""
	row = {
		'timestamp_weatherlink': codec.timestamp(when), 'timestamp_station': when, 'timestamp_utc': when + datetime.timedelta(hours=6), 'minutes_covered': 5,
		'summary_year': when.year, 'summary_month': when.month, 'summary_day': when.day,
	}
	row.update(values)
	return row
