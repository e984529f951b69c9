From 788e9fb3a64889f1ee90f4e2d75ed57d0a41e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 01/24] fix: read .wlk wind direction codes as unsigned bytes

The no-direction code 255 was read as -1, so importing a file with a calm
record raised ValueError.
---
 weatherlink/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index 1cda6cd..18fb505 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -224,8 +224,8 @@ class DailySummary(RecordDict):
 		'h'  # average wind speed in tenths of miles per hour
 		'h'  # daily wind run total in tenths of miles
 		'h'  # highest 10-minute average wind speed in tenths of miles per hour
-		'b'  # direction code (0-15, 255) for high wind speed
-		'b'  # direction code for highest 10-minute average wind speed
+		'B'  # direction code (0-15, 255) for high wind speed
+		'B'  # direction code for highest 10-minute average wind speed
 		'h'  # daily rain total in thousandths of inches
 		'h'  # hi daily rain rate in hundredths of inches per hour
 		'2x'  # daily UV dose (ignored)
@@ -340,8 +340,8 @@ class ArchiveIntervalRecord(RecordDict):
 		'h'  # high rain rate this time period in raw clicks/hr
 		'h'  # wind speed in tenths of miles per hour
 		'h'  # hi wind speed this time period in tenths of miles per hour
-		'b'  # prevailing wind direction (0-15, 255)
-		'b'  # hi wind speed direction (0-15, 255)
+		'B'  # prevailing wind direction (0-15, 255)
+		'B'  # hi wind speed direction (0-15, 255)
 		'h'  # number of wind samples this time period
 		'h'  # average solar rad this time period in watts / meter squared
 		'h'  # high solar radiation this time period in watts / meter squared
-- 
2.43.0


From 251c26574f9fae6e91b534e5afb653067dee731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 02/24] fix: default the poller's packet type from the poller's
 own constant

LoopRecord has no PACKET_TYPE_LOOP2, so no poller could be constructed.
---
 weatherlink/poller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 26acce8..657686b 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -30,7 +30,7 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 	def __init__(self, *args, **kwargs):
 		super(Poller, self).__init__(*args, **kwargs)
 
-		self.packet_type = LoopRecord.PACKET_TYPE_LOOP2
+		self.packet_type = self.PACKET_TYPE_LOOP2
 		self._stop_event = None
 
 	def poll(self, num_packets):
-- 
2.43.0


From 9195e2a36d3db3c564b1e0783a07d74a94aadbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 03/24] fix: send and receive bytes over the IP connection on
 Python 3

Instructions are text, which a Python 3 socket refuses to send, and the
file handle decoded the console's binary data as text.
---
 weatherlink/serial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 39ac244..b710e29 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -210,6 +210,8 @@ class SerialIPCommunicator(SerialCommunicator):
 			self._socket = None
 
 	def _send_data(self, data):
+		if isinstance(data, six.text_type):
+			data = data.encode('ascii')
 		self._socket.sendall(data)
 
 	def _read_data(self, length):
@@ -220,7 +222,7 @@ class SerialIPCommunicator(SerialCommunicator):
 		handle = None
 		exc = None
 		try:
-			handle = self._socket.makefile()
+			handle = self._socket.makefile('rb')
 			yield handle
 		except Exception as e:
 			exc = e
-- 
2.43.0


From 2e7b4b7eb3d34cc12fef2730fd233f62a4adf351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 04/24] fix: reject a truncated configuration setting when
 confirming its CRC

The CRC of an empty response (or of a prefix of zeroes) is zero, so a
connection closed early was returned as a valid setting.
---
 weatherlink/serial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index b710e29..973f10b 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -273,9 +273,10 @@ class ConfigurationSettingMixin(SerialCommunicator):
 		self._send_instruction(self.CONFIG_READ_INSTRUCTION % (setting_address, setting_length, ))
 
 		with self._get_file_handle() as handle:
-			setting = handle.read(int('0x%s' % setting_length, 16) + 2)  # must read the CRC
+			expected_length = int('0x%s' % setting_length, 16) + 2  # must read the CRC
+			setting = handle.read(expected_length)
 
-		if confirm_crc and calculate_weatherlink_crc(setting) != 0:
+		if confirm_crc and (len(setting) != expected_length or calculate_weatherlink_crc(setting) != 0):
 			raise CRCValidationError('CRC for response %s does not resolve to zero.' % repr(setting))
 
 		return setting if return_crc else setting[:-2]
-- 
2.43.0


From e4a5017417ed44b14e9bed8a3e4718791ef22d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 05/24] fix: use the station's real UTC offset in the MySQL
 exporter

Replacing tzinfo with a pytz zone applies its LMT offset, so every UTC time was
off by minutes and ignored daylight saving time.
---
 weatherlink/exporter/mysql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index e6751c3..d576a68 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -223,7 +223,10 @@ class MySQLExporter(object):
 	def _add_timestamp_values_to_arguments(self, record, arguments):
 		column_map = self.archive_table_column_map
 
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		tz = self.station_time_zone
+		# pytz time zones must be localized; replacing tzinfo would use the zone's first (usually LMT) offset
+		d = tz.localize(record.date) if hasattr(tz, 'localize') else record.date.replace(tzinfo=tz)
+		d = d.astimezone(pytz.UTC).replace(tzinfo=None)
 		arguments[column_map['timestamp_utc']] = d
 		arguments[column_map['summary_year']] = record.date.year
 		arguments[column_map['summary_month']] = record.date.month
-- 
2.43.0


From de69c45ae54f81b31975a11530361877baeb21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 06/24] fix: use the station's real UTC offset in the Weather
 Underground exporter

Replacing tzinfo with a pytz zone applies its LMT offset, so every UTC time was
off by minutes and ignored daylight saving time.
---
 weatherlink/exporter/wunderground.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 659b9e6..a77775d 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -131,7 +131,10 @@ class WundergroundExporter(object):
 		self._station_time_zone = pytz.timezone(value) if isinstance(value, six.string_types) else value
 
 	def _send_update(self, url, attribute_map, attribute_calculations, record):
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		tz = self.station_time_zone
+		# pytz time zones must be localized; replacing tzinfo would use the zone's first (usually LMT) offset
+		d = tz.localize(record.date) if hasattr(tz, 'localize') else record.date.replace(tzinfo=tz)
+		d = d.astimezone(pytz.UTC).replace(tzinfo=None)
 
 		url = '%s&ID=%s&PASSWORD=%s&dateutc=%s' % (
 			url,
-- 
2.43.0


From a2af06cfde2b5d0eb916115246aa4a1308a2d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 07/24] fix: upload numeric values to Weather Underground

quote() accepts only strings, so every update with a measurement raised
TypeError.
---
 weatherlink/exporter/wunderground.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index a77775d..746400a 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -145,13 +145,13 @@ class WundergroundExporter(object):
 
 		for parameter, field in attribute_map or []:
 			if field and record[field] is not None:
-				url += '&%s=%s' % (parameter, url_quote(record[field], safe=''), )
+				url += '&%s=%s' % (parameter, url_quote(six.text_type(record[field]), safe=''), )
 
 		for parameter, function in attribute_calculations or []:
 			if function:
 				value = function(self, record)
 				if value is not None:
-					url += '&%s=%s' % (parameter, url_quote(value, safe=''), )
+					url += '&%s=%s' % (parameter, url_quote(six.text_type(value), safe=''), )
 
 		response = self._session.get(url)
 
-- 
2.43.0


From 7e9ec1d37d20b8447d3d7a824127400022635de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 08/24] fix: find the wind gust on Python 3

max(None, speed) raises TypeError there, so no rapid update could be sent.
---
 weatherlink/exporter/wunderground.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 746400a..f51ac40 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -26,9 +26,8 @@ def _get_wind_gust(exporter, *_):
 		i += 1
 
 		if record['wind_speed'] is not None:
-			old_gust = gust
-			gust = max(gust, record['wind_speed'])
-			if gust != old_gust:
+			if gust is None or record['wind_speed'] > gust:
+				gust = record['wind_speed']
 				gust_direction = record['wind_direction_degrees']
 
 	return gust, gust_direction
-- 
2.43.0


From 9f5836d05a3c8cf3085fc9a0881c3a8dacf518ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 09/24] fix: send simple updates without outside temperature or
 humidity

The dew point was calculated even when a measurement was missing, which raised.
---
 weatherlink/exporter/wunderground.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index f51ac40..aa06a44 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -80,7 +80,10 @@ class WundergroundExporter(object):
 		('windgustdir_10m', None, ),  # TODO
 		(
 			'dewptf',
-			lambda e, r: weatherlink.utils.calculate_dew_point(r['temperature_outside'], r['humidity_outside']),
+			lambda e, r: (
+				weatherlink.utils.calculate_dew_point(r['temperature_outside'], r['humidity_outside'])
+				if r['temperature_outside'] is not None and r['humidity_outside'] else None
+			),
 		),
 		('rainin', None, ),  # TODO rain last hour
 		('dailyrainin', None, ),  # TODO rain today
-- 
2.43.0


From 54f10c8e849b3d716cdee910373e276fcf1f4650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 10/24] fix: average wind directions around the compass

The arithmetic mean of two northerly directions such as 350 and 10 degrees is 180,
the opposite direction.
---
 weatherlink/exporter/wunderground.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index aa06a44..897168f 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -5,6 +5,7 @@ This module contains an exporter for uploading weather data to the Weather Under
 from __future__ import absolute_import
 
 import collections
+import math
 # noinspection PyUnresolvedReferences
 from six.moves.urllib.parse import quote as url_quote
 
@@ -45,7 +46,11 @@ def _get_2_minute_average_wind_direction(exporter, *_):
 		if record['wind_direction_degrees'] is not None:
 			current_direction_list.append(record['wind_direction_degrees'])
 
-	return (sum(current_direction_list) / len(current_direction_list)) if current_direction_list else None
+	x = sum(math.cos(math.radians(d)) for d in current_direction_list)
+	y = sum(math.sin(math.radians(d)) for d in current_direction_list)
+	if math.hypot(x, y) < 1e-6:  # There are no directions, or they cancel each other out
+		return None
+	return int(round(math.degrees(math.atan2(y, x)))) % 360 or 360
 
 
 class WundergroundExporter(object):
-- 
2.43.0


From d0cb6135e6837dba3ea7cd050b6d1e82c1e7154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 11/24] fix: send rapid updates after simple updates

Archive records queued by simple updates have no current wind direction, so the
next rapid update with the same exporter raised KeyError.
---
 weatherlink/exporter/wunderground.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 897168f..40a0154 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -22,6 +22,8 @@ def _get_wind_gust(exporter, *_):
 	gust_direction = None
 
 	for record in exporter.record_queue:
+		if 'wind_direction_degrees' not in record:  # This was sent by a simple update
+			continue
 		if i > 24:  # 1 minute
 			break
 		i += 1
@@ -39,6 +41,8 @@ def _get_2_minute_average_wind_direction(exporter, *_):
 	current_direction_list = []
 
 	for record in exporter.record_queue:
+		if 'wind_direction_degrees' not in record:  # This was sent by a simple update
+			continue
 		if i > 48:  # 2 minutes
 			break
 		i += 1
-- 
2.43.0


From 1756e55e2764ac4865f4f35c9df11a1354d30fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 12/24] fix: quote the credentials in the download URL

A password containing a reserved character such as & or # was cut short.
---
 weatherlink/downloader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/weatherlink/downloader.py b/weatherlink/downloader.py
index a059c63..a4e1ef6 100644
--- a/weatherlink/downloader.py
+++ b/weatherlink/downloader.py
@@ -1,6 +1,8 @@
 from __future__ import absolute_import
 
 import requests
+# noinspection PyUnresolvedReferences
+from six.moves.urllib.parse import quote as url_quote
 
 from weatherlink.models import (
 	ArchiveIntervalRecord,
@@ -39,9 +41,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=url_quote(self.username, safe=''),
+			password=url_quote(self.password, safe=''),
+			api_token=url_quote(self.api_token, safe=''),
 			action=self.ACTION_HEADERS,
 		)
 
@@ -53,9 +55,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=url_quote(self.username, safe=''),
+			password=url_quote(self.password, safe=''),
+			api_token=url_quote(self.api_token, safe=''),
 			action=self.ACTION_DOWNLOAD,
 		)
 
-- 
2.43.0


From 78d5ac03ab597dd24a4589737fb8546d621c69b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 13/24] fix: raise AttributeError for a record's missing
 attributes

KeyError broke hasattr(), copying, and pickling of records.
---
 weatherlink/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index 18fb505..be1544f 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -156,7 +156,10 @@ class RecordDict(dict):
 		super(RecordDict, self).__init__(*args, **kwargs)
 
 	def __getattr__(self, name):
-		return self.__getitem__(name)
+		try:
+			return self.__getitem__(name)
+		except KeyError:
+			raise AttributeError(name)
 
 	def __setattr__(self, name, value):
 		self[name] = value
-- 
2.43.0


From 769de46c1391f826d9e64f9eae5002283e7e6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 14/24] fix: read the daily number of wind packets as unsigned

A full day has more than 32767 packets, which were reported as a negative number.
---
 weatherlink/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index be1544f..5bd4b28 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -19,6 +19,7 @@ import six
 
 DASH_LARGE = 32767
 DASH_LARGE_NEGATIVE = -32768
+DASH_LARGE_UNSIGNED = 32768
 DASH_ZERO = 0
 DASH_SMALL = 255
 
@@ -236,7 +237,7 @@ class DailySummary(RecordDict):
 		'27x'  # time values (ignored)
 		'bx'  # '3' plus a reserved byte [ignored]
 		'2x'  # today's weather (unsupported and ignored)
-		'h'  # total number of wind packets
+		'H'  # total number of wind packets
 		'8x'  # solar, sunlight, and evapotranspiration (ignored)
 		'2h'  # hi and low heat index in tenths of degrees
 		'h'  # average heat index in tenths of degrees
@@ -287,7 +288,7 @@ class DailySummary(RecordDict):
 		('rain_total', THOUSANDTHS, None, ),
 		('rain_rate_high', HUNDREDTHS, None, ),
 		('ds2_version', STRAIGHT_NUMBER, None, ),
-		('total_wind_packets', STRAIGHT_NUMBER, DASH_LARGE_NEGATIVE, ),
+		('total_wind_packets', STRAIGHT_NUMBER, DASH_LARGE_UNSIGNED, ),
 		('heat_index_high', TENTHS, DASH_LARGE_NEGATIVE, ),
 		('heat_index_low', TENTHS, DASH_LARGE, ),
 		('heat_index_average', TENTHS, DASH_LARGE, ),
-- 
2.43.0


From 9850ef59ec5b3477078ae9c0cd18ef610006c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 15/24] fix: derive values from, and to, exactly zero degrees

A temperature of 0.0 was treated as missing and a derived value of 0.0 was
dropped, so another measurement's value could be stored in its place.
---
 weatherlink/utils.py | 60 ++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index 44a3fd5..eeb2aed 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -643,7 +643,7 @@ def calculate_10_minute_wind_average(records):
 
 
 def _append_to_list(l, v):
-	if v:
+	if v is not None:
 		l.append(v)
 
 
@@ -668,29 +668,29 @@ def calculate_all_record_values(record):
 		arguments['wind_run_distance_total'] = distance
 
 	if humidity_outside and barometric_pressure:
-		if temperature_outside:
+		if temperature_outside is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb'] = a
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_low, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_low'] = a
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_high, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_high'] = a
 
 	if humidity_outside:
 		a = []
 		b = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside, humidity_outside))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_low, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_low, humidity_outside))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_high, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_high, humidity_outside))
 		if a:
@@ -702,45 +702,45 @@ def calculate_all_record_values(record):
 			arguments['heat_index_outside_low'] = min(b)
 			arguments['heat_index_outside_high'] = max(b)
 
-	if humidity_inside and temperature_inside:
+	if humidity_inside and temperature_inside is not None:
 		a = calculate_dew_point(temperature_inside, humidity_inside)
 		b = calculate_heat_index(temperature_inside, humidity_inside)
-		if a:
+		if a is not None:
 			arguments['dew_point_inside'] = a
-		if b:
+		if b is not None:
 			arguments['heat_index_inside'] = b
 
-	if (wind_speed or wind_speed_high) and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	if wind_speed or wind_speed_high:
 		a = []
-		if wind_speed and temperature_outside:
+		if wind_speed and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed))
-		if wind_speed and temperature_outside_high:
+		if wind_speed and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed))
-		if wind_speed and temperature_outside_low:
+		if wind_speed and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed))
-		if wind_speed_high and temperature_outside:
+		if wind_speed_high and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed_high))
-		if wind_speed_high and temperature_outside_high:
+		if wind_speed_high and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed_high))
-		if wind_speed_high and temperature_outside_low:
+		if wind_speed_high and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed_high))
 		if a:
 			arguments['wind_chill'] = a[0]
 			arguments['wind_chill_low'] = min(a)
 			arguments['wind_chill_high'] = max(a)
 
-	if humidity_outside and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	if humidity_outside:
 		ws = wind_speed if wind_speed else 0
 		wsh = wind_speed_high if wind_speed_high else 0
 
 		a = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, wsh))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, wsh))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, wsh))
 		if a:
@@ -750,10 +750,10 @@ def calculate_all_record_values(record):
 
 		if solar_radiation or solar_radiation_high:
 			a = []
-			if temperature_outside and solar_radiation:
+			if temperature_outside is not None and solar_radiation:
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, ws))
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, wsh))
-			if temperature_outside_high and solar_radiation:
+			if temperature_outside_high is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, ws),
@@ -762,7 +762,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside_low and solar_radiation:
+			if temperature_outside_low is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, ws),
@@ -771,7 +771,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside and solar_radiation_high:
+			if temperature_outside is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, ws),
@@ -780,7 +780,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_high and solar_radiation_high:
+			if temperature_outside_high is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, ws),
@@ -789,7 +789,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_low and solar_radiation_high:
+			if temperature_outside_low is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation_high, ws),
-- 
2.43.0


From b05db897da4b1d49dedf71a380a2964a77f2eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 16/24] fix: summarize days without any outside temperature

Degree days were calculated from a missing average temperature, which raised
TypeError.
---
 weatherlink/exporter/mysql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index d576a68..e4ba640 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -321,8 +321,10 @@ class MySQLExporter(object):
 				wsh10mae = wsh10mae.time()
 
 			# Calculate degree days
-			hdd = weatherlink.utils.calculate_heating_degree_days(average_temperature)
-			cdd = weatherlink.utils.calculate_cooling_degree_days(average_temperature)
+			hdd = cdd = None
+			if average_temperature is not None:
+				hdd = weatherlink.utils.calculate_heating_degree_days(average_temperature)
+				cdd = weatherlink.utils.calculate_cooling_degree_days(average_temperature)
 
 			# Update the summary with these daily-only expensive calculations
 			cursor.execute(
-- 
2.43.0


From 869e62c1d07eb84aa8d853b94162672df651da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 17/24] fix: read all wind records before the next statement

For archive intervals over 10 minutes the calculation stops at the first record,
and the connector refuses to continue while there are unread rows.
---
 weatherlink/exporter/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index e4ba640..3512b6d 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -309,7 +309,7 @@ class MySQLExporter(object):
 				'ORDER BY timestamp_station;'
 			)
 			cursor.execute(query, [year, month, day])
-			wsh10ma, wsh10mad, wsh10mas, wsh10mae = weatherlink.utils.calculate_10_minute_wind_average(cursor)
+			wsh10ma, wsh10mad, wsh10mas, wsh10mae = weatherlink.utils.calculate_10_minute_wind_average(cursor.fetchall())
 
 			if wsh10mas:
 				# The date represents the end of the record time span, so change it to the beginning for the start time
-- 
2.43.0


From ff465b1ec308203c7a7d3fa84544b0dfe5789a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 18/24] fix: record when a temperature extreme of exactly zero
 occurred

A low or high of 0.0 was treated as missing, so its timestamp was left empty.
---
 weatherlink/exporter/mysql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 3512b6d..20ae08e 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -475,6 +475,9 @@ class MySQLExporter(object):
 		(49, ('thsw_index_high', 'thsw_index_high', ), 'thsw_index_high_timestamp', ),
 	)
 
+	# For wind, rain, sun, and UV, a high of zero means that there was none, so it has no timestamp
+	TIMESTAMP_ZERO_MEANS_NONE = frozenset({15, 19, 21, 24})
+
 	def _recalculate_summary_from_arguments(
 		self, cursor, where_clause, where_arguments, summary_type, year, month, week, day,
 		week_start=None, week_end=None,
@@ -539,7 +542,7 @@ class MySQLExporter(object):
 			timestamp_columns += ', ' + rule[2] + ' = %s'
 
 			value = summary_values[rule[0]]
-			if not value:
+			if value is None or (not value and rule[0] in self.TIMESTAMP_ZERO_MEANS_NONE):
 				timestamp_values.append(None)
 				continue
 
-- 
2.43.0


From d91fc6342a6c5a2eeaf40d45a392f7aa33f391c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 19/24] fix: find the end of rain events longer than 1440
 records

Only the first 1440 records after the start were examined, so a longer event was
ongoing forever and no later event was ever found.
---
 weatherlink/exporter/mysql.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 20ae08e..2baf40f 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -11,7 +11,6 @@ import decimal
 import datetime
 
 import mysql.connector
-import mysql.connector.errors
 import pytz
 import six
 
@@ -694,14 +693,7 @@ class MySQLExporter(object):
 				event_rain_rates = [start_record[2]]
 				event_max_rain_rate = event_rain_rates[0]
 				event_max_rate_time = last_rain
-				# At a 1-minute resolution (the max), 400 records is greater than 3 hours, so we can limit to that
-				# This limit might have to be increased if the 3-hour rain event threshold is changed
-				cursor.execute(
-					'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
-					'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT 1440;',
-					[start_record[0]],
-				)
-				for (timestamp_station, rain_total, rain_rate_high) in cursor:
+				for (timestamp_station, rain_total, rain_rate_high) in self._get_rain_records_after(start_record[0]):
 					last_record = timestamp_station
 
 					if (timestamp_station - last_rain).total_seconds() > THREE_HOURS_IN_SECONDS:
@@ -718,12 +710,6 @@ class MySQLExporter(object):
 					if old != event_max_rain_rate:
 						event_max_rate_time = timestamp_station
 
-				try:
-					cursor.fetchall()  # Fetch remaining rows to prevent an error.
-				except mysql.connector.errors.InterfaceError:
-					# This just means there were no remaining rows
-					pass
-
 				if (last_record - last_rain).total_seconds() < THREE_HOURS_IN_SECONDS:
 					# This is an ongoing rain event, so don't record the end yet.
 					last_rain = None
@@ -751,6 +737,22 @@ class MySQLExporter(object):
 
 		return found_rain_events, ongoing_rain_events
 
+	def _get_rain_records_after(self, timestamp):
+		# A rain event may last any number of records, so get them a batch at a time (1440 records is at least a day)
+		batch_size = 1440
+		while True:
+			with self._get_cursor(
+				'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
+				'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT %s;',
+				[timestamp, batch_size],
+			) as cursor:
+				records = cursor.fetchall()
+			for record in records:
+				yield record
+			if len(records) < batch_size:
+				break
+			timestamp = records[-1][0]
+
 	def get_newest_timestamp(self):
 		with self._get_cursor('SELECT max(timestamp_weatherlink) FROM weather_archive_record;', []) as cursor:
 			return cursor.fetchone()[0]
-- 
2.43.0


From 5a29052c8ff4c7e7645a6bea125072fd91fc2f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 20/24] fix: allow polling again after background polling ends

The stop event was never cleared, so background polling could only be started
once per poller, and poll() after stopping it returned nothing.
---
 weatherlink/poller.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 657686b..d157435 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -44,10 +44,14 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 
 		self._stop_event = threading.Event()
 
-		self._send_poll_instruction(num_packets)
+		try:
+			self._send_poll_instruction(num_packets)
 
-		thread = threading.Thread(target=self._receive_loop_packets, args=(num_packets, callback, ))
-		thread.start()
+			thread = threading.Thread(target=self._receive_background_packets, args=(num_packets, callback, ))
+			thread.start()
+		except:
+			self._stop_event = None
+			raise
 
 	def stop_background_polling(self):
 		if not self._stop_event:
@@ -55,6 +59,12 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 
 		self._stop_event.set()
 
+	def _receive_background_packets(self, num_packets, callback):
+		try:
+			self._receive_loop_packets(num_packets, callback)
+		finally:
+			self._stop_event = None
+
 	def _send_poll_instruction(self, num_packets):
 		self._send_instruction(self.POLL_INSTRUCTION % (self.packet_type, num_packets, ))
 
-- 
2.43.0


From 7712361ca28217f579481efd69a30bc62e0517de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:05 +0000
Subject: [PATCH 21/24] fix: start the week of a summary at midnight exactly

---
 weatherlink/exporter/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 2baf40f..696fa05 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -339,7 +339,7 @@ class MySQLExporter(object):
 
 	def _recalculate_weekly_summary(self, week_year, week_number, date):
 		week_day = date.weekday()
-		week_start = (date - datetime.timedelta(days=week_day)).replace(hour=0, minute=0, second=0)
+		week_start = (date - datetime.timedelta(days=week_day)).replace(hour=0, minute=0, second=0, microsecond=0)
 		week_end = (week_start + datetime.timedelta(days=6)).replace(hour=23, minute=59, second=59)
 
 		with self._get_cursor() as cursor:
-- 
2.43.0


From 4cbbbc7ab903166de54e7057992a1c68fd61eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:59 +0000
Subject: [PATCH 22/24] fix: update the year a week belongs to at the turn of
 the year

---
 weatherlink/exporter/mysql.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 696fa05..a31baac 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -275,6 +275,10 @@ class MySQLExporter(object):
 			yw.add((week_year, week_number, ))
 			ywdd.append((week_year, week_number, date, ))
 
+			# At the turn of a year, a week may belong to the other year, whose summary then averages it
+			if week_year not in y and self._has_yearly_summary(week_year):
+				y.add(week_year)
+
 		y = sorted(list(y))
 		ym = sorted(list(ym))
 
@@ -408,6 +412,13 @@ class MySQLExporter(object):
 
 			self._connection.commit()
 
+	def _has_yearly_summary(self, year):
+		with self._get_cursor(
+			"SELECT summary_id FROM weather_calculated_summary WHERE summary_type = 'YEARLY' AND summary_year = %s;",
+			[year],
+		) as cursor:
+			return cursor.fetchone() is not None
+
 	def _recalculate_yearly_summary(self, year):
 		with self._get_cursor() as cursor:
 			summary_id, _ = self._recalculate_summary_from_arguments(
-- 
2.43.0


From ff514a5bc5fb690ca9e354d29a58aff3dbe4a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 23/24] fix: forget an average wind run that no longer exists
 when a summary is recalculated

---
 weatherlink/exporter/mysql.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index a31baac..7342051 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -665,12 +665,12 @@ class MySQLExporter(object):
 		)
 		wind_run_distance_total_average = cursor.fetchone()[0]
 
-		if wind_run_distance_total_average:
-			cursor.execute(
-				'UPDATE weather_calculated_summary SET wind_run_distance_' + column + '_average = %s '
-				'WHERE summary_id = %s;',
-				[wind_run_distance_total_average, summary_id],
-			)
+		# Even if there is no average (anymore), so that no earlier average remains
+		cursor.execute(
+			'UPDATE weather_calculated_summary SET wind_run_distance_' + column + '_average = %s '
+			'WHERE summary_id = %s;',
+			[wind_run_distance_total_average, summary_id],
+		)
 
 	def find_new_rain_events(self):
 		found_rain_events = 0
-- 
2.43.0


From c2a92fa2ad19a0777d4c5aa42c4e6f5d7264e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 24/24] fix: roll back what a failed database operation left
 unfinished

---
 weatherlink/exporter/mysql.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 7342051..d5d06de 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -188,6 +188,8 @@ class MySQLExporter(object):
 			yield cursor
 		except Exception as e:
 			exc = e
+			# Otherwise, what this left unfinished would become part of whatever is committed next
+			self._rollback()
 			raise
 		finally:
 			if cursor:
@@ -198,6 +200,14 @@ class MySQLExporter(object):
 					if not exc:
 						raise
 
+	def _rollback(self):
+		# noinspection PyBroadException
+		try:
+			self._connection.rollback()
+		except Exception:
+			# This is only called because of another exception, which is the one to be raised
+			pass
+
 	def export_record(self, record):
 		argument_map = {}
 		self._add_timestamp_values_to_arguments(record, argument_map)
-- 
2.43.0

