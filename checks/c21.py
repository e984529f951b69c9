"""Station-local time to UTC in both exporters."""
import datetime
import zoneinfo

import pytz
from hypothesis import strategies as st

from wlv import archive, fakedb, gen
from wlv.core import Prop, Sub
from wlv.fakehttp import Server

from weatherlink.exporter.mysql import MySQLExporter
from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import LoopRecord

SCHEMA = fakedb.repository_schema()
ZONES = sorted(pytz.all_timezones)
USUAL = ['America/Chicago', 'America/New_York', 'Europe/London', 'Europe/Dublin', 'Australia/Lord_Howe', 'Asia/Kathmandu', 'America/St_Johns',
	'Pacific/Apia', 'UTC', 'Asia/Kolkata', 'America/Sao_Paulo', 'Africa/Casablanca', 'Pacific/Chatham', 'America/Phoenix', 'Etc/GMT+12']
DEFAULT = 'America/Chicago'
DAY = datetime.timedelta(days=1)


def acceptable(name, d):
	"""Every UTC time that the zone shows as d; for a skipped local time, d with the offset before or after the gap."""
	tz = pytz.timezone(name) if isinstance(name, str) else pytz.FixedOffset(name)
	offsets = set()
	for around in (d - DAY, d - DAY / 4, d, d + DAY / 4, d + DAY):
		offsets.add(pytz.UTC.localize(around).astimezone(tz).utcoffset())
	out = {d - o for o in offsets if pytz.UTC.localize(d - o).astimezone(tz).replace(tzinfo=None) == d}
	return out or {d - o for o in offsets}, len(out)


def zone_value(kind, name):
	if kind == 'string':
		return name
	if kind == 'pytz':
		return pytz.timezone(name)
	if kind == 'zoneinfo':
		return zoneinfo.ZoneInfo(name)
	if kind == 'fixed':
		return pytz.FixedOffset(name)
	if kind == 'timezone':
		return datetime.timezone(datetime.timedelta(minutes=name))
	return None


@st.composite
def moment(draw):
	kind = draw(st.sampled_from(['string', 'string', 'pytz', 'pytz', 'unset', 'none', 'fixed', 'timezone', 'zoneinfo']))
	if kind in ('fixed', 'timezone'):
		name = draw(st.integers(-14 * 60, 14 * 60))
	elif kind in ('unset', 'none'):
		name = DEFAULT
	else:
		name = draw(st.one_of(st.sampled_from(USUAL), st.sampled_from(ZONES)))
	first, last = datetime.datetime(2001, 1, 2), datetime.datetime(2035, 12, 30)
	d = draw(gen.minute_datetimes(first, last))
	if isinstance(name, str):
		transitions = [x for x in getattr(pytz.timezone(name), '_utc_transition_times', ()) if first < x < last]
		if transitions and draw(st.integers(0, 3)):
			x = draw(st.sampled_from(transitions))
			d = pytz.UTC.localize(x).astimezone(pytz.timezone(name)).replace(tzinfo=None) + datetime.timedelta(minutes=draw(st.integers(-200, 200)))
	return kind, name, d, draw(st.sampled_from([0, 0, 1, 30, 59]))


def usable(kind, name, d):
	"""zoneinfo may come from another release of the database than pytz, which is the oracle."""
	if kind != 'zoneinfo':
		return True
	try:
		z = zoneinfo.ZoneInfo(name)
	except Exception:
		return False
	allowed, _ = acceptable(name, d)
	return {d - d.replace(tzinfo=z, fold=f).utcoffset() for f in (0, 1)} <= allowed


def check_mysql(case, t):
	fields, moments = case
	server = fakedb.FakeServer(SCHEMA)
	seen = {}
	with fakedb.patched(server):
		exporter = MySQLExporter('user', 'secret', 'weather')
		exporter.connect()
		started = False
		for kind, name, d, _ in moments:
			if d in seen or not usable(kind, name, d):
				continue
			if kind == 'unset' and started:
				kind = 'none'
			started = True
			if kind != 'unset':
				with t.sut('station_time_zone'):
					exporter.station_time_zone = zone_value(kind, name)
			record = archive.build(dict(fields, date=d))
			with t.sut('export_record with time zone %s' % name):
				exporter.export_record(record)
			t.eq(record.date, d, "the record's own date after export")
			seen[d] = (kind, name)
		exporter.disconnect()
	rows = server.rows('weather_archive_record')
	t.eq(len(rows), len(seen), 'rows')
	for row in rows:
		kind, name = seen[row['timestamp_station']]
		judge(t, kind, name, row['timestamp_station'], row['timestamp_utc'])


def judge(t, kind, name, d, utc):
	allowed, count = acceptable(name, d)
	t.check(utc in allowed, '%s in %s is %s UTC, the exporter has %s', d, name, ' or '.join(str(x) for x in sorted(allowed)), utc)
	t.label(kind, {0: 'skipped local time', 1: 'unambiguous'}.get(count, 'repeated local time'))
	t.nontrivial(utc != d)


RAPID = ('wind_speed', 'wind_direction_degrees', 'wind_speed_2_minute_average', 'wind_speed_10_minute_gust',
	'wind_speed_10_minute_gust_direction_degrees', 'humidity_outside', 'dew_point', 'temperature_outside', 'rain_amount_1_hour',
	'rain_amount_today', 'barometric_pressure', 'solar_radiation', 'uv_index', 'temperature_inside', 'humidity_inside')


def check_wunderground(case, t):
	fields, moments = case
	exporter = WundergroundExporter('STATION', 'secret')
	started = False
	for k, (kind, name, d, seconds) in enumerate(moments):
		if not usable(kind, name, d):
			continue
		if kind == 'unset' and started:
			kind = 'none'
		started = True
		if kind != 'unset':
			with t.sut('station_time_zone'):
				exporter.station_time_zone = zone_value(kind, name)
		d += datetime.timedelta(seconds=seconds)
		rapid = (k + seconds) % 2
		if rapid:
			record = LoopRecord(**{a: None for a in RAPID})
			record['date'] = d
		else:
			record = archive.build(dict(fields, date=d))
		seen = []

		def handler(exchange):
			seen.append(exchange)
			return 200, {'Content-Type': 'text/html'}, b'success'
		with Server(handler):
			with t.sut('update with time zone %s' % name):
				(exporter.send_rapid_update if rapid else exporter.send_simple_update)(record)
		t.eq(len(seen), 1, 'requests')
		text = seen[0].parameters.get('dateutc')
		try:
			utc = datetime.datetime.strptime(text, '%Y-%m-%d %H:%M:%S')
		except (TypeError, ValueError):
			t.fail('dateutc is %r' % text)
		judge(t, kind, name, d, utc)


def every_zone():
	out = []
	for name in ZONES:
		for d in (datetime.datetime(2016, 1, 15, 12), datetime.datetime(2016, 7, 15, 12)):
			out.append((FIELDS, [('string', name, d, 1)]))
	return out


FIELDS = {'minutes_covered': 5, 'temperature_outside': None, 'temperature_outside_low': None, 'temperature_outside_high': None,
	'temperature_inside': None, 'humidity_outside': None, 'humidity_inside': None, 'barometric_pressure': None, 'wind_speed': 4,
	'wind_speed_high': 9, 'rain_amount_clicks': 1, 'rain_rate_clicks': 2, 'solar_radiation': None, 'solar_radiation_high': None,
	'uv_index': None, 'uv_index_high': None, 'evapotranspiration': None, 'wind_direction_prevailing': 3, 'wind_direction_speed_high': 4}


def strategy():
	return st.tuples(st.just(FIELDS), st.lists(moment(), min_size=1, max_size=3))


PROPERTY = Prop(
	'C21',
	'Generated station times (most within hours of an offset change) in every time zone of the database, given as a name, a time '
	'zone object of four kinds, or left at the default, changed between records; plus every zone in winter and summer. The oracle is '
	'the round trip: the UTC time, shown in the zone, is the station time. Non-trivial: UTC differs from the station time.',
	[
		Sub('mysql', check_mysql, strategy, quick=700),
		Sub('wunderground', check_wunderground, strategy, quick=700),
		Sub('mysql-zones', check_mysql, cases=every_zone),
		Sub('wunderground-zones', check_wunderground, cases=every_zone),
	],
	['For a local time that occurs twice either UTC time is accepted; for one that is skipped, the offset before or after.'],
)
