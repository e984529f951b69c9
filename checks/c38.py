"""The same measurements through a .wlk file and through a download."""
import datetime
import io
from decimal import Decimal

from hypothesis import strategies as st

from checks.c20 import TABLE, exporter_for
from wlv import codec, fakedb, gen
from wlv.core import Prop, Sub, same, show

from weatherlink.models import ArchiveIntervalRecord
from weatherlink.utils import calculate_all_record_values

SCHEMA = fakedb.repository_schema()

COMMON = ('date', 'timestamp', 'minutes_covered', 'temperature_outside', 'temperature_outside_high', 'temperature_outside_low', 'temperature_inside',
	'barometric_pressure', 'humidity_outside', 'humidity_inside', 'wind_speed', 'wind_speed_high', 'number_of_wind_samples', 'solar_radiation',
	'solar_radiation_high', 'uv_index', 'uv_index_high', 'wind_direction_prevailing', 'wind_direction_speed_high', 'wind_direction_prevailing_degrees',
	'wind_direction_speed_high_degrees', 'rain_amount_clicks', 'rain_rate_clicks', 'rain_amount', 'rain_rate')
OWN = {'evapotranspiration'}  # only downloads have it

WLK = {f[0]: f for f in codec.WLK_FIELDS}
DOWNLOAD = {f[0]: f for f in codec.DOWNLOAD_FIELDS}


def raw(fields, measured):
	out = {}
	for name, (_, _, _, _, scale, dash) in fields.items():
		value = measured.get(name)
		out[name] = dash if value is None else int(Decimal(value) / scale)
	for name, _ in codec.WLK_DIRECTIONS:
		out[name] = 255 if measured[name] is None else measured[name]
	out['junk'] = measured['junk']
	return out


def wlk_raw(m):
	"""(the day of the file it belongs to, raw values)"""
	d = m['date']
	r = raw(WLK, m)
	midnight = m['midnight_as_1440'] and d.hour == 0 and d.minute == 0
	day = d - datetime.timedelta(days=1) if midnight else d
	r.update(minutes_covered=m['minutes_covered'], minutes_past_midnight=1440 if midnight else d.hour * 60 + d.minute, rain_code=0x1000,
		rain_clicks=m['rain_amount_clicks'], rain_rate_clicks=m['rain_rate_clicks'])
	return day.date(), r


def as_wlk(m):
	day, r = wlk_raw(m)
	return ArchiveIntervalRecord.load_from_wlk(io.BytesIO(codec.encode_wlk_record(r)), day.year, day.month, day.day)


def download_raw(m):
	r = raw(DOWNLOAD, m)
	ds, ts = codec.date_stamps(m['date'])
	r.update(rain_clicks=m['rain_amount_clicks'], rain_rate_clicks=m['rain_rate_clicks'], date_stamp=ds, time_stamp=ts)
	return r


def as_download(m):
	return ArchiveIntervalRecord.load_from_download(io.BytesIO(codec.encode_download_record(download_raw(m))), m['minutes_covered'])


def check_parity(case, t):
	servers = fakedb.FakeServer(SCHEMA), fakedb.FakeServer(SCHEMA)
	pairs = []
	for m in case:
		with t.sut('loading'):
			pairs.append((as_wlk(m), as_download(m)))
	for (a, b), m in zip(pairs, case):
		for name in COMMON:
			t.check(name in a and name in b, 'attribute %s is missing', name)
			x, y = a[name], b[name]
			t.check(x is y or same(x, y), '%s is %s in the file and %s in the download of the same measurement', name, show(x), show(y))
		with t.sut('calculate_all_record_values'):
			x, y = calculate_all_record_values(a), calculate_all_record_values(b)
		t.eq(sorted(x), sorted(y), 'derived values')
		for name in x:
			t.check(same(x[name], y[name]), '%s derives as %s from the file and %s from the download', name, x[name], y[name])
	for k, server in enumerate(servers):
		with fakedb.patched(server):
			exporter = exporter_for(server)
			for pair in pairs:
				with t.sut('export_record'):
					exporter.export_record(pair[k])
			exporter.disconnect()
	rows = [s.rows(TABLE, 'timestamp_weatherlink') for s in servers]
	t.eq(len(rows[0]), len(case), 'rows')
	t.eq(len(rows[1]), len(case), 'rows')
	for x, y in zip(*rows):
		for column in x:
			if column not in OWN and column != 'record_id':
				t.eq(x[column], y[column], 'column %s of the file and the download' % column)
	t.nontrivial(any(sum(v is not None for v in r.values()) >= 25 for r in rows[0]))
	t.label(*(['something missing'] if any(v is None for m in case for v in m.values()) else ['all present']))


def check_derivable(case, t):
	"""Whatever physically plausible record comes in, its values can be derived and stored."""
	source, m = case
	with t.sut('loading'):
		record = as_wlk(m) if source else as_download(m)
	with t.sut('calculate_all_record_values'):
		values = calculate_all_record_values(record)
	for name, value in values.items():
		t.check(value is None or (isinstance(value, (int, Decimal)) and not isinstance(value, bool)), '%s derives as %r', name, value)
	server = fakedb.FakeServer(SCHEMA)
	with fakedb.patched(server):
		exporter = exporter_for(server)
		with t.sut('export_record'):
			exporter.export_record(record)
		exporter.disconnect()
	t.eq(len(server.rows(TABLE)), 1, 'rows')
	t.nontrivial(len(values) >= 15)


def measurement(extreme=False):
	none = lambda s: st.one_of(s, s, s, s, st.none())  # noqa: E731
	temperature = none(st.one_of(gen.decimals(-40, 120), gen.decimals(-1, 1), gen.decimals(-60, 150) if extreme else st.nothing(), st.just(Decimal('0.0'))))
	whole = lambda low, high: none(st.one_of(st.integers(low, high), st.sampled_from([low, high])))  # noqa: E731
	return st.fixed_dictionaries({
		'date': gen.minute_datetimes(datetime.datetime(2001, 1, 2), datetime.datetime(2062, 12, 30)),
		'midnight_as_1440': st.booleans(),
		'minutes_covered': st.sampled_from([1, 5, 10, 15, 30, 60, 120]),
		'temperature_outside': temperature, 'temperature_outside_high': temperature, 'temperature_outside_low': temperature,
		'temperature_inside': temperature,
		'barometric_pressure': none(gen.decimals(20, Decimal('32.5'), 3)),
		'humidity_outside': whole(1, 100), 'humidity_inside': whole(1, 100),
		'wind_speed': whole(0, 200), 'wind_speed_high': whole(1, 250),
		'number_of_wind_samples': whole(1, 3000),
		'solar_radiation': whole(0, 1800), 'solar_radiation_high': whole(0, 1800),
		'uv_index': none(gen.decimals(0, 16)), 'uv_index_high': none(gen.decimals(0, 16)),
		'wind_direction_prevailing': whole(0, 15), 'wind_direction_speed_high': whole(0, 15),
		'rain_amount_clicks': st.one_of(st.integers(0, 40), st.integers(0, 4095)),
		'rain_rate_clicks': st.one_of(st.integers(0, 400), st.integers(0, 9000)),
		'junk': gen.junk,
	})


PROPERTY = Prop(
	'C38',
	'Generated measurements, each encoded once as a .wlk record (midnight also as minute 1440 of the day before) and once as a '
	'downloaded record; the loaded records, their derived values and their database rows are compared with each other. '
	'Non-trivial: a row with at least 25 values.',
	[
		Sub('parity', check_parity, lambda: st.lists(measurement(), min_size=1, max_size=3, unique_by=lambda m: m['date']), quick=400),
		Sub('derivable', check_derivable, lambda: st.tuples(st.booleans(), measurement(True)), quick=900),
	],
	['Measurements are physically plausible: -60 to 150 degrees, humidity 1 to 100 %, pressure 20 to 32.5 inHg, a 0.01 inch rain collector.',
		'Winds are whole miles per hour and humidities whole percents, the resolution both sources share.'],
)
