"""
Encoders and reference decoders for the Davis binary formats, written from the format descriptions by explicit byte
offset and independently of the library's struct format strings.

A field is (attribute, offset, size, signed, scale, dash): `dash` is the stored value that means "no data".
"""
import datetime
from decimal import Decimal

TENTH, HUNDREDTH, THOUSANDTH = Decimal('0.1'), Decimal('0.01'), Decimal('0.001')

DIRECTIONS = ('N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW', 'NW', 'NNW')

# Rain collector codes of .wlk records: code -> (member name, inches per click)
CM = Decimal('0.393701')
RAIN_DATABASE = {
	0x0000: ('inches_0_1', Decimal('0.1')),
	0x1000: ('inches_0_01', Decimal('0.01')),
	0x2000: ('millimeters_0_2', Decimal('0.02') * CM),
	0x3000: ('millimeters_1_0', Decimal('0.1') * CM),
	0x6000: ('millimeters_0_1', Decimal('0.01') * CM),
}


def direction_degrees(code):
	return Decimal(360) if code == 0 else Decimal('22.5') * code


# ---------------------------------------------------------------- .wlk archive records (88 bytes)
WLK_LENGTH = 88
WLK_FIELDS = (
	('temperature_outside', 6, 2, True, TENTH, 32767),
	('temperature_outside_high', 8, 2, True, TENTH, -32768),
	('temperature_outside_low', 10, 2, True, TENTH, 32767),
	('temperature_inside', 12, 2, True, TENTH, 32767),
	('barometric_pressure', 14, 2, True, THOUSANDTH, 0),
	('humidity_outside', 16, 2, True, TENTH, 255),
	('humidity_inside', 18, 2, True, TENTH, 255),
	('wind_speed', 24, 2, True, TENTH, 255),
	('wind_speed_high', 26, 2, True, TENTH, 0),
	('number_of_wind_samples', 30, 2, True, 1, 0),
	('solar_radiation', 32, 2, True, 1, -32768),
	('solar_radiation_high', 34, 2, True, 1, -32768),
	('uv_index', 36, 1, False, TENTH, 255),
	('uv_index_high', 37, 1, False, TENTH, 255),
)
WLK_DIRECTIONS = (('wind_direction_prevailing', 28), ('wind_direction_speed_high', 29))

# ---------------------------------------------------------------- downloaded archive records (52 bytes)
DOWNLOAD_LENGTH = 52
DOWNLOAD_FIELDS = (
	('temperature_outside', 4, 2, True, TENTH, 32767),
	('temperature_outside_high', 6, 2, True, TENTH, -32768),
	('temperature_outside_low', 8, 2, True, TENTH, 32767),
	('barometric_pressure', 14, 2, False, THOUSANDTH, 0),
	('solar_radiation', 16, 2, True, 1, 32767),
	('number_of_wind_samples', 18, 2, False, 1, 0),
	('temperature_inside', 20, 2, True, TENTH, 32767),
	('humidity_inside', 22, 1, False, 1, 255),
	('humidity_outside', 23, 1, False, 1, 255),
	('wind_speed', 24, 1, False, 1, 255),
	('wind_speed_high', 25, 1, False, 1, 0),
	('uv_index', 28, 1, False, TENTH, 255),
	('evapotranspiration', 29, 1, False, THOUSANDTH, 0),
	('solar_radiation_high', 30, 2, True, 1, 32767),
	('uv_index_high', 32, 1, False, TENTH, 255),
)
DOWNLOAD_DIRECTIONS = (('wind_direction_speed_high', 26), ('wind_direction_prevailing', 27))

# ---------------------------------------------------------------- .wlk daily summaries (2 x 88 bytes)
SUMMARY_LENGTH = 176
SUMMARY_FIELDS = (
	('minutes', 2, 2, True, 1, None),
	('temperature_outside_high', 4, 2, True, TENTH, -32768),
	('temperature_outside_low', 6, 2, True, TENTH, 32767),
	('temperature_inside_high', 8, 2, True, TENTH, -32768),
	('temperature_inside_low', 10, 2, True, TENTH, 32767),
	('temperature_outside_average', 12, 2, True, TENTH, 32767),
	('temperature_inside_average', 14, 2, True, TENTH, 32767),
	('wind_chill_high', 16, 2, True, TENTH, -32768),
	('wind_chill_low', 18, 2, True, TENTH, 32767),
	('dew_point_high', 20, 2, True, TENTH, -32768),
	('dew_point_low', 22, 2, True, TENTH, 32767),
	('wind_chill_average', 24, 2, True, TENTH, 32767),
	('dew_point_average', 26, 2, True, TENTH, 32767),
	('humidity_outside_high', 28, 2, True, TENTH, 255),
	('humidity_outside_low', 30, 2, True, TENTH, 255),
	('humidity_inside_high', 32, 2, True, TENTH, 255),
	('humidity_inside_low', 34, 2, True, TENTH, 255),
	('humidity_outside_average', 36, 2, True, TENTH, 255),
	('barometric_pressure_high', 38, 2, True, THOUSANDTH, 0),
	('barometric_pressure_low', 40, 2, True, THOUSANDTH, 0),
	('barometric_pressure_average', 42, 2, True, THOUSANDTH, 0),
	('wind_speed_high', 44, 2, True, TENTH, 0),
	('wind_speed_average', 46, 2, True, TENTH, 0),
	('wind_daily_run', 48, 2, True, TENTH, 0),
	('wind_speed_high_10_minute_average', 50, 2, True, TENTH, -32768),
	('rain_total', 54, 2, True, THOUSANDTH, None),
	('rain_rate_high', 56, 2, True, HUNDREDTH, None),
	('total_wind_packets', 92, 2, False, 1, 32768),
	('heat_index_high', 102, 2, True, TENTH, -32768),
	('heat_index_low', 104, 2, True, TENTH, 32767),
	('heat_index_average', 106, 2, True, TENTH, 32767),
	('thw_index_high', 112, 2, True, TENTH, -32768),
	('thw_index_low', 114, 2, True, TENTH, 32767),
	('integrated_heating_degree_days', 116, 2, True, TENTH, 0),
	('temperature_wet_bulb_high', 118, 2, True, TENTH, -32768),
	('temperature_wet_bulb_low', 120, 2, True, TENTH, 32767),
	('temperature_wet_bulb_average', 122, 2, True, TENTH, 32767),
	('integrated_cooling_degree_days', 163, 2, True, TENTH, 0),
)
SUMMARY_DIRECTIONS = (('wind_speed_high_direction', 52), ('wind_speed_high_10_minute_average_direction', 53))

# ---------------------------------------------------------------- LOOP2 packets (99 bytes)
LOOP2_LENGTH = 99
LOOP2_FIELDS = (
	('barometric_pressure', 7, 2, False, THOUSANDTH, 0),
	('temperature_inside', 9, 2, True, TENTH, 32767),
	('humidity_inside', 11, 1, False, 1, 255),
	('temperature_outside', 12, 2, True, TENTH, 32767),
	('wind_speed', 14, 1, False, 1, 255),
	('wind_direction_degrees', 16, 2, False, 1, 0),
	('wind_speed_10_minute_average', 18, 2, False, TENTH, 0),
	('wind_speed_2_minute_average', 20, 2, False, TENTH, 0),
	('wind_speed_10_minute_gust', 22, 2, False, TENTH, 0),
	('wind_speed_10_minute_gust_direction_degrees', 24, 2, False, 1, 0),
	('dew_point', 30, 2, True, 1, 255),
	('humidity_outside', 33, 1, False, 1, 255),
	('heat_index', 35, 2, True, 1, 255),
	('wind_chill', 37, 2, True, 1, 255),
	('thsw_index', 39, 2, True, 1, 255),
	('rain_rate_clicks', 41, 2, False, 1, None),
	('uv_index', 43, 1, False, TENTH, 255),
	('solar_radiation', 44, 2, False, 1, 32767),
	('rain_clicks_this_storm', 46, 2, False, 1, None),
	('rain_clicks_today', 50, 2, False, 1, None),
	('rain_clicks_15_minutes', 52, 2, False, 1, None),
	('rain_clicks_1_hour', 54, 2, False, 1, None),
	('evapotranspiration', 56, 2, False, THOUSANDTH, 0),
	('rain_clicks_24_hours', 58, 2, False, 1, None),
	('minute_in_hour', 79, 1, False, 1, 60),
)
LOOP2_RAIN = (
	('rain_rate_clicks', 'rain_rate'),
	('rain_clicks_this_storm', 'rain_amount_this_storm'),
	('rain_clicks_today', 'rain_amount_today'),
	('rain_clicks_15_minutes', 'rain_amount_15_minutes'),
	('rain_clicks_1_hour', 'rain_amount_1_hour'),
	('rain_clicks_24_hours', 'rain_amount_24_hours'),
)
LOOP2_TREND_OFFSET = 3
LOOP2_TRENDS = {-60: 'falling_rapidly', -20: 'falling_slowly', 0: 'steady', 20: 'rising_slowly', 60: 'rising_rapidly'}
# offset -> required bytes
LOOP2_CONSTANTS = {
	0: b'LOO', 4: b'\x01', 5: b'\xff\x7f', 15: b'\xff', 26: b'\xff\x7f', 28: b'\xff\x7f', 32: b'\xff', 34: b'\xff',
	71: b'\xff', 83: b'\xff\x7f' * 6, 95: b'\n\r',
}


def crc(data):
	"""CRC-CCITT, polynomial x^16 + x^12 + x^5 + 1, initial value 0, bit by bit."""
	value = 0
	for byte in bytearray(data):
		for bit in range(7, -1, -1):
			top = (value >> 15) & 1
			value = (value << 1) & 0xFFFF
			if top ^ ((byte >> bit) & 1):
				value ^= 0x1021
	return value


def put(buffer, offset, size, signed, value):
	buffer[offset:offset + size] = int(value).to_bytes(size, 'little', signed=signed)


def filler(length, seed):
	"""Deterministic junk for ignored bytes."""
	out = bytearray()
	x = (seed * 2654435761 + 12345) & 0xFFFFFFFF
	while len(out) < length:
		x = (x * 1103515245 + 12345) & 0x7FFFFFFF
		out.append((x >> 16) & 0xFF)
	return out


def encode_fields(length, fields, raw, junk):
	buffer = filler(length, junk)
	for name, offset, size, signed, _, _ in fields:
		put(buffer, offset, size, signed, raw[name])
	return buffer


def decode_field(field, value):
	"""The set of acceptable decoded values for a stored value."""
	name, _, size, _, scale, dash = field
	decoded = Decimal(value) * scale if scale != 1 else Decimal(value)
	if dash is not None and value == dash:
		if dash == 255 and size == 2 and scale == TENTH:
			# 255 tenths is also a possible reading of a two-byte field; only the library's documentation calls it "no data".
			return (None, decoded)
		return (None, )
	return (decoded, )


def timestamp(d):
	return ((d.day + d.month * 32 + (d.year - 2000) * 512) << 16) + d.hour * 100 + d.minute


def encode_wlk_record(raw):
	b = encode_fields(WLK_LENGTH, WLK_FIELDS, raw, raw['junk'])
	b[0] = raw.get('type', 1)
	b[1] = raw['minutes_covered']
	put(b, 4, 2, True, raw['minutes_past_midnight'])
	put(b, 20, 2, False, raw['rain_code'] | raw['rain_clicks'])
	put(b, 22, 2, True, raw['rain_rate_clicks'])
	for name, offset in WLK_DIRECTIONS:
		b[offset] = raw[name]
	return bytes(b)


def expect_wlk_record(raw, year, month, day):
	"""attribute -> tuple of acceptable values (enum members by name)."""
	e = {f[0]: decode_field(f, raw[f[0]]) for f in WLK_FIELDS}
	e['minutes_covered'] = (raw['minutes_covered'], )
	e['minutes_past_midnight'] = (raw['minutes_past_midnight'], )
	name, inches = RAIN_DATABASE[raw['rain_code']]
	e['rain_collector_type'] = (name, )
	e['rain_amount_clicks'] = (raw['rain_clicks'], )
	e['rain_rate_clicks'] = (raw['rain_rate_clicks'], )
	e['rain_amount'] = (inches * raw['rain_clicks'], )
	e['rain_rate'] = (inches * raw['rain_rate_clicks'], )
	_expect_directions(e, raw, WLK_DIRECTIONS)
	d = datetime.datetime(year, month, day) + datetime.timedelta(minutes=raw['minutes_past_midnight'])
	e['date'] = (d, )
	e['timestamp'] = (timestamp(d), )
	return e


def _expect_directions(e, raw, directions):
	for name, _ in directions:
		code = raw[name]
		e[name] = (None, ) if code == 255 else (DIRECTIONS[code], )
		e[name + '_degrees'] = (None, ) if code == 255 else (direction_degrees(code), )


def encode_download_record(raw):
	b = encode_fields(DOWNLOAD_LENGTH, DOWNLOAD_FIELDS, raw, raw['junk'])
	put(b, 0, 2, False, raw['date_stamp'])
	put(b, 2, 2, False, raw['time_stamp'])
	put(b, 10, 2, False, raw['rain_clicks'])
	put(b, 12, 2, False, raw['rain_rate_clicks'])
	b[42] = raw.get('version', 0)
	for name, offset in DOWNLOAD_DIRECTIONS:
		b[offset] = raw[name]
	return bytes(b)


def expect_download_record(raw, minutes_covered):
	e = {f[0]: decode_field(f, raw[f[0]]) for f in DOWNLOAD_FIELDS}
	e['minutes_covered'] = (minutes_covered, )
	e['rain_collector_type'] = ('inches_0_01', )
	e['rain_amount_clicks'] = (raw['rain_clicks'], )
	e['rain_rate_clicks'] = (raw['rain_rate_clicks'], )
	e['rain_amount'] = (Decimal(raw['rain_clicks']) * HUNDREDTH, )
	e['rain_rate'] = (Decimal(raw['rain_rate_clicks']) * HUNDREDTH, )
	_expect_directions(e, raw, DOWNLOAD_DIRECTIONS)
	e['timestamp'] = ((raw['date_stamp'] << 16) + raw['time_stamp'], )
	ds, ts = raw['date_stamp'], raw['time_stamp']
	e['date'] = (datetime.datetime(2000 + ds // 512, ds // 32 % 16, ds % 32, ts // 100, ts % 100), )
	return e


def date_stamps(d):
	return d.day + d.month * 32 + (d.year - 2000) * 512, d.hour * 100 + d.minute


def encode_summary(raw):
	b = encode_fields(SUMMARY_LENGTH, SUMMARY_FIELDS, raw, raw['junk'])
	b[0] = raw.get('type2', 2)
	b[88] = raw.get('type3', 3)
	for name, offset in SUMMARY_DIRECTIONS:
		b[offset] = raw[name]
	return bytes(b)


def expect_summary(raw, year, month, day):
	e = {f[0]: decode_field(f, raw[f[0]]) for f in SUMMARY_FIELDS}
	for name, _ in SUMMARY_DIRECTIONS:
		e[name] = (None, ) if raw[name] == 255 else (DIRECTIONS[raw[name]], )
	e['date'] = (datetime.date(year, month, day), )
	return e


def encode_loop2(raw):
	b = encode_fields(LOOP2_LENGTH, LOOP2_FIELDS, raw, raw['junk'])
	for offset, data in LOOP2_CONSTANTS.items():
		b[offset:offset + len(data)] = data
	put(b, LOOP2_TREND_OFFSET, 1, True, raw['barometric_trend'])
	value = crc(bytes(b[:97])) ^ raw.get('crc_error', 0)
	b[97], b[98] = value >> 8, value & 0xFF
	return bytes(b)


def expect_loop2(raw):
	e = {f[0]: decode_field(f, raw[f[0]]) for f in LOOP2_FIELDS}
	e['barometric_trend'] = (LOOP2_TRENDS.get(raw['barometric_trend']), )
	for clicks, amount in LOOP2_RAIN:
		inches = Decimal(raw[clicks]) * HUNDREDTH
		e[amount] = (None, inches) if raw[clicks] == 0 else (inches, )
	e['crc_match'] = (raw.get('crc_error', 0) == 0, )
	e['record_type'] = (2, )
	# The compass points are judged by the direction property; here only presence.
	return e


def encode_header(version, total, indexes):
	b = bytearray(version[:16].ljust(16, b'\0'))
	b += int(total).to_bytes(4, 'little', signed=True)
	for count, start in indexes:
		b += int(count).to_bytes(2, 'little', signed=True) + int(start).to_bytes(4, 'little', signed=True)
	return bytes(b)


def compare(t, record, expected, what):
	"""Every expected attribute of a record has one of its acceptable values."""
	for name in sorted(expected):
		if name not in record:
			t.fail('%s: %s is missing' % (what, name))
		value = record[name]
		allowed = expected[name]
		if isinstance(allowed[0], str) and value is not None:
			value = getattr(value, 'name', value)
		if allowed and isinstance(allowed[0], bool):
			t.check(value is allowed[0], '%s: %s: expected %r, got %r', what, name, allowed[0], value)
		else:
			t.one_of(value, allowed, '%s: %s' % (what, name))
