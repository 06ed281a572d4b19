From 77e8bbf1f1d886953216ae6dfb0a9bec723a2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 01/28] fix: WLK wind direction codes are unsigned (255 means
 no direction)

---
 weatherlink/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index 1cda6cd..18fb505 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -224,8 +224,8 @@ class DailySummary(RecordDict):
 		'h'  # average wind speed in tenths of miles per hour
 		'h'  # daily wind run total in tenths of miles
 		'h'  # highest 10-minute average wind speed in tenths of miles per hour
-		'b'  # direction code (0-15, 255) for high wind speed
-		'b'  # direction code for highest 10-minute average wind speed
+		'B'  # direction code (0-15, 255) for high wind speed
+		'B'  # direction code for highest 10-minute average wind speed
 		'h'  # daily rain total in thousandths of inches
 		'h'  # hi daily rain rate in hundredths of inches per hour
 		'2x'  # daily UV dose (ignored)
@@ -340,8 +340,8 @@ class ArchiveIntervalRecord(RecordDict):
 		'h'  # high rain rate this time period in raw clicks/hr
 		'h'  # wind speed in tenths of miles per hour
 		'h'  # hi wind speed this time period in tenths of miles per hour
-		'b'  # prevailing wind direction (0-15, 255)
-		'b'  # hi wind speed direction (0-15, 255)
+		'B'  # prevailing wind direction (0-15, 255)
+		'B'  # hi wind speed direction (0-15, 255)
 		'h'  # number of wind samples this time period
 		'h'  # average solar rad this time period in watts / meter squared
 		'h'  # high solar radiation this time period in watts / meter squared
-- 
2.43.0


From 666ad7ed8e7aaae655570b24fb061c818c6d8300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 02/28] fix: a day's wind packet count exceeds 32767 and must
 be read unsigned

---
 weatherlink/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index 18fb505..ba0c9b0 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -233,7 +233,7 @@ class DailySummary(RecordDict):
 		'27x'  # time values (ignored)
 		'bx'  # '3' plus a reserved byte [ignored]
 		'2x'  # today's weather (unsupported and ignored)
-		'h'  # total number of wind packets
+		'H'  # total number of wind packets
 		'8x'  # solar, sunlight, and evapotranspiration (ignored)
 		'2h'  # hi and low heat index in tenths of degrees
 		'h'  # average heat index in tenths of degrees
@@ -284,7 +284,7 @@ class DailySummary(RecordDict):
 		('rain_total', THOUSANDTHS, None, ),
 		('rain_rate_high', HUNDREDTHS, None, ),
 		('ds2_version', STRAIGHT_NUMBER, None, ),
-		('total_wind_packets', STRAIGHT_NUMBER, DASH_LARGE_NEGATIVE, ),
+		('total_wind_packets', STRAIGHT_NUMBER, None, ),
 		('heat_index_high', TENTHS, DASH_LARGE_NEGATIVE, ),
 		('heat_index_low', TENTHS, DASH_LARGE, ),
 		('heat_index_average', TENTHS, DASH_LARGE, ),
-- 
2.43.0


From be34bd54decb6e8cd30cdd05e242f854d31f416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 03/28] fix: read console responses in binary mode

---
 weatherlink/serial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 39ac244..00af701 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -220,7 +220,7 @@ class SerialIPCommunicator(SerialCommunicator):
 		handle = None
 		exc = None
 		try:
-			handle = self._socket.makefile()
+			handle = self._socket.makefile('rb')
 			yield handle
 		except Exception as e:
 			exc = e
-- 
2.43.0


From 45fbb3e901f9ca17469491845d356c4d09e4edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 04/28] fix: encode text commands before sending them over the
 socket

---
 weatherlink/serial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 00af701..b710e29 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -210,6 +210,8 @@ class SerialIPCommunicator(SerialCommunicator):
 			self._socket = None
 
 	def _send_data(self, data):
+		if isinstance(data, six.text_type):
+			data = data.encode('ascii')
 		self._socket.sendall(data)
 
 	def _read_data(self, length):
-- 
2.43.0


From 34714dfd019700501d2aaa0f19fd1aff76d04ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 05/28] fix: a connection closed instead of an ACK is an
 acknowledgement error

---
 weatherlink/serial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index b710e29..421e381 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -112,7 +112,10 @@ class SerialCommunicator(object):
 		:raises NotAcknowledgedError: If the byte read is an NAK byte (0x15) or a ! (0x21)
 		:raises InvalidAcknowledgementError: If the byte read is not an ACK byte (0x06)
 		"""
-		ack = self._read_data(1)[0]
+		data = self._read_data(1)
+		if not data:
+			raise InvalidAcknowledgementError('Expected ACK response 0x06, but the connection was closed instead.')
+		ack = data[0]
 		NotAcknowledgedError.raise_if_not_acknowledged(ack)
 		InvalidAcknowledgementError.raise_if_not_acknowledged(ack)
 
-- 
2.43.0


From c0ca2ba81e913d6e7c075dffd3b3b76128607edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 06/28] fix: reject a setting response that is cut short

---
 weatherlink/serial.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 421e381..9ef30f3 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -271,12 +271,17 @@ class ConfigurationSettingMixin(SerialCommunicator):
 		:return: The raw setting bytes, optionally including the CRC as the last two bytes
 		:rtype: str | bytes
 		:raises AcknowledgmentError: If an incorrect ACK is returned
+		:raises IOError: If the connection is closed before the response is complete
 		:raises CRCValidationError: If `confirm_crc` is `True` and the CRC does not match
 		"""
 		self._send_instruction(self.CONFIG_READ_INSTRUCTION % (setting_address, setting_length, ))
 
 		with self._get_file_handle() as handle:
-			setting = handle.read(int('0x%s' % setting_length, 16) + 2)  # must read the CRC
+			length = int('0x%s' % setting_length, 16) + 2  # must read the CRC
+			setting = handle.read(length)
+
+		if len(setting) != length:
+			raise IOError('Response %s is %s bytes long instead of %s.' % (repr(setting), len(setting), length))
 
 		if confirm_crc and calculate_weatherlink_crc(setting) != 0:
 			raise CRCValidationError('CRC for response %s does not resolve to zero.' % repr(setting))
-- 
2.43.0


From 421759b337a213749f3dae785f936d8f1baab5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 07/28] fix: background polling can be restarted after a
 session ends or fails to start

---
 weatherlink/poller.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 26acce8..41e0280 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -44,16 +44,27 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 
 		self._stop_event = threading.Event()
 
-		self._send_poll_instruction(num_packets)
+		try:
+			self._send_poll_instruction(num_packets)
 
-		thread = threading.Thread(target=self._receive_loop_packets, args=(num_packets, callback, ))
-		thread.start()
+			thread = threading.Thread(target=self._poll_in_background, args=(num_packets, callback, ))
+			thread.start()
+		except:
+			self._stop_event = None
+			raise
 
 	def stop_background_polling(self):
-		if not self._stop_event:
+		stop_event = self._stop_event  # The session may end, and reset this, at any moment
+		if not stop_event:
 			raise ValueError('Cannot stop background polling when not running.')
 
-		self._stop_event.set()
+		stop_event.set()
+
+	def _poll_in_background(self, num_packets, callback):
+		try:
+			self._receive_loop_packets(num_packets, callback)
+		finally:
+			self._stop_event = None  # However this session ended, a new one may be started
 
 	def _send_poll_instruction(self, num_packets):
 		self._send_instruction(self.POLL_INSTRUCTION % (self.packet_type, num_packets, ))
-- 
2.43.0


From 328ab60d5ff0589b6181738f66a43e9b5194f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 08/28] fix: URL-encode the credentials of a download

---
 weatherlink/downloader.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/weatherlink/downloader.py b/weatherlink/downloader.py
index a059c63..068b710 100644
--- a/weatherlink/downloader.py
+++ b/weatherlink/downloader.py
@@ -1,5 +1,8 @@
 from __future__ import absolute_import
 
+# noinspection PyUnresolvedReferences
+from six.moves.urllib.parse import quote as url_quote
+
 import requests
 
 from weatherlink.models import (
@@ -39,9 +42,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=url_quote(self.username, safe=''),
+			password=url_quote(self.password, safe=''),
+			api_token=url_quote(self.api_token, safe=''),
 			action=self.ACTION_HEADERS,
 		)
 
@@ -53,9 +56,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=url_quote(self.username, safe=''),
+			password=url_quote(self.password, safe=''),
+			api_token=url_quote(self.api_token, safe=''),
 			action=self.ACTION_DOWNLOAD,
 		)
 
-- 
2.43.0


From f4eb4d8d50dc40cc713444668cec8f21b38d584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 09/28] fix: degree days of an unknown average temperature are
 unknown

---
 weatherlink/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index 44a3fd5..f4ffb6f 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -507,7 +507,7 @@ def calculate_cooling_degree_days(average_temperature):
 
 	:return: The cooling degree days, or `None` if the average temperature was less than or equal to 65F
 	"""
-	if average_temperature <= DEGREE_DAYS_THRESHOLD:
+	if average_temperature is None or average_temperature <= DEGREE_DAYS_THRESHOLD:
 		return None
 	return average_temperature - DEGREE_DAYS_THRESHOLD
 
@@ -523,7 +523,7 @@ def calculate_heating_degree_days(average_temperature):
 
 	:return: The heating degree days, or `None` if the average temperature was greater than or equal to 65F
 	"""
-	if average_temperature >= DEGREE_DAYS_THRESHOLD:
+	if average_temperature is None or average_temperature >= DEGREE_DAYS_THRESHOLD:
 		return None
 	return DEGREE_DAYS_THRESHOLD - average_temperature
 
-- 
2.43.0


From a42d311dd94af5739a93f59a8656c6a192e457a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 10/28] fix: derive values from temperatures of zero degrees
 too

---
 weatherlink/utils.py | 64 +++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index f4ffb6f..2fee990 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -643,7 +643,7 @@ def calculate_10_minute_wind_average(records):
 
 
 def _append_to_list(l, v):
-	if v:
+	if v is not None:
 		l.append(v)
 
 
@@ -668,29 +668,29 @@ def calculate_all_record_values(record):
 		arguments['wind_run_distance_total'] = distance
 
 	if humidity_outside and barometric_pressure:
-		if temperature_outside:
+		if temperature_outside is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb'] = a
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_low, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_low'] = a
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_high, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_high'] = a
 
 	if humidity_outside:
 		a = []
 		b = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside, humidity_outside))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_low, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_low, humidity_outside))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_high, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_high, humidity_outside))
 		if a:
@@ -702,45 +702,49 @@ def calculate_all_record_values(record):
 			arguments['heat_index_outside_low'] = min(b)
 			arguments['heat_index_outside_high'] = max(b)
 
-	if humidity_inside and temperature_inside:
+	if humidity_inside and temperature_inside is not None:
 		a = calculate_dew_point(temperature_inside, humidity_inside)
 		b = calculate_heat_index(temperature_inside, humidity_inside)
-		if a:
+		if a is not None:
 			arguments['dew_point_inside'] = a
-		if b:
+		if b is not None:
 			arguments['heat_index_inside'] = b
 
-	if (wind_speed or wind_speed_high) and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	has_temperature_outside = (
+		temperature_outside is not None or temperature_outside_high is not None or temperature_outside_low is not None
+	)
+
+	if (wind_speed or wind_speed_high) and has_temperature_outside:
 		a = []
-		if wind_speed and temperature_outside:
+		if wind_speed and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed))
-		if wind_speed and temperature_outside_high:
+		if wind_speed and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed))
-		if wind_speed and temperature_outside_low:
+		if wind_speed and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed))
-		if wind_speed_high and temperature_outside:
+		if wind_speed_high and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed_high))
-		if wind_speed_high and temperature_outside_high:
+		if wind_speed_high and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed_high))
-		if wind_speed_high and temperature_outside_low:
+		if wind_speed_high and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed_high))
 		if a:
 			arguments['wind_chill'] = a[0]
 			arguments['wind_chill_low'] = min(a)
 			arguments['wind_chill_high'] = max(a)
 
-	if humidity_outside and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	if humidity_outside and has_temperature_outside:
 		ws = wind_speed if wind_speed else 0
 		wsh = wind_speed_high if wind_speed_high else 0
 
 		a = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, wsh))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, wsh))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, wsh))
 		if a:
@@ -750,10 +754,10 @@ def calculate_all_record_values(record):
 
 		if solar_radiation or solar_radiation_high:
 			a = []
-			if temperature_outside and solar_radiation:
+			if temperature_outside is not None and solar_radiation:
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, ws))
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, wsh))
-			if temperature_outside_high and solar_radiation:
+			if temperature_outside_high is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, ws),
@@ -762,7 +766,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside_low and solar_radiation:
+			if temperature_outside_low is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, ws),
@@ -771,7 +775,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside and solar_radiation_high:
+			if temperature_outside is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, ws),
@@ -780,7 +784,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_high and solar_radiation_high:
+			if temperature_outside_high is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, ws),
@@ -789,7 +793,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_low and solar_radiation_high:
+			if temperature_outside_low is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation_high, ws),
-- 
2.43.0


From a2bc5cb2a86ec0e5e526685a0aea0cfa61afcf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 11/28] fix: the first wind speed of a gust has nothing to be
 compared with

---
 weatherlink/exporter/wunderground.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 659b9e6..acde446 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -27,7 +27,7 @@ def _get_wind_gust(exporter, *_):
 
 		if record['wind_speed'] is not None:
 			old_gust = gust
-			gust = max(gust, record['wind_speed'])
+			gust = record['wind_speed'] if gust is None else max(gust, record['wind_speed'])
 			if gust != old_gust:
 				gust_direction = record['wind_direction_degrees']
 
-- 
2.43.0


From e537bc11f1f4bf57ed4e7a2cdae8aebc5b262a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 12/28] fix: numbers must be made text before they are quoted
 into an update URL

---
 weatherlink/exporter/wunderground.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index acde446..98ab879 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -142,13 +142,13 @@ class WundergroundExporter(object):
 
 		for parameter, field in attribute_map or []:
 			if field and record[field] is not None:
-				url += '&%s=%s' % (parameter, url_quote(record[field], safe=''), )
+				url += '&%s=%s' % (parameter, url_quote(str(record[field]), safe=''), )
 
 		for parameter, function in attribute_calculations or []:
 			if function:
 				value = function(self, record)
 				if value is not None:
-					url += '&%s=%s' % (parameter, url_quote(value, safe=''), )
+					url += '&%s=%s' % (parameter, url_quote(str(value), safe=''), )
 
 		response = self._session.get(url)
 
-- 
2.43.0


From 852dc0dd060aec0859939583c39c1cab5804fdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 13/28] fix: omit the dew point of an update when temperature
 or humidity is missing

---
 weatherlink/exporter/wunderground.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 98ab879..f765d36 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -81,7 +81,10 @@ class WundergroundExporter(object):
 		('windgustdir_10m', None, ),  # TODO
 		(
 			'dewptf',
-			lambda e, r: weatherlink.utils.calculate_dew_point(r['temperature_outside'], r['humidity_outside']),
+			lambda e, r: (
+				weatherlink.utils.calculate_dew_point(r['temperature_outside'], r['humidity_outside'])
+				if r['temperature_outside'] is not None and r['humidity_outside'] else None
+			),
 		),
 		('rainin', None, ),  # TODO rain last hour
 		('dailyrainin', None, ),  # TODO rain today
-- 
2.43.0


From 666683855ed45d85b480d6833424d085258d8406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 14/28] fix: average wind directions as angles so that they do
 not wrap around north

---
 weatherlink/exporter/wunderground.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index f765d36..a9ff982 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -5,6 +5,7 @@ This module contains an exporter for uploading weather data to the Weather Under
 from __future__ import absolute_import
 
 import collections
+import math
 # noinspection PyUnresolvedReferences
 from six.moves.urllib.parse import quote as url_quote
 
@@ -46,7 +47,13 @@ def _get_2_minute_average_wind_direction(exporter, *_):
 		if record['wind_direction_degrees'] is not None:
 			current_direction_list.append(record['wind_direction_degrees'])
 
-	return (sum(current_direction_list) / len(current_direction_list)) if current_direction_list else None
+	if not current_direction_list:
+		return None
+
+	# Directions are angles: the average of 350 and 10 degrees is north, not south, so average them as unit vectors
+	angles = [math.radians(d) for d in current_direction_list]
+	average = math.degrees(math.atan2(sum(math.sin(a) for a in angles), sum(math.cos(a) for a in angles)))
+	return round(average, 1) % 360 or 360.0  # 360 is north
 
 
 class WundergroundExporter(object):
-- 
2.43.0


From 329dfa4dd8e223b90def925f7063f320bd73cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 15/28] fix: convert station time to UTC with the offset in
 force at that time

---
 weatherlink/exporter/mysql.py        |  2 +-
 weatherlink/exporter/wunderground.py |  2 +-
 weatherlink/utils.py                 | 22 ++++++++++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index e6751c3..a272c03 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -223,7 +223,7 @@ class MySQLExporter(object):
 	def _add_timestamp_values_to_arguments(self, record, arguments):
 		column_map = self.archive_table_column_map
 
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		d = weatherlink.utils.convert_station_time_to_utc(record.date, self.station_time_zone)
 		arguments[column_map['timestamp_utc']] = d
 		arguments[column_map['summary_year']] = record.date.year
 		arguments[column_map['summary_month']] = record.date.month
diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index a9ff982..a87b334 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -141,7 +141,7 @@ class WundergroundExporter(object):
 		self._station_time_zone = pytz.timezone(value) if isinstance(value, six.string_types) else value
 
 	def _send_update(self, url, attribute_map, attribute_calculations, record):
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		d = weatherlink.utils.convert_station_time_to_utc(record.date, self.station_time_zone)
 
 		url = '%s&ID=%s&PASSWORD=%s&dateutc=%s' % (
 			url,
diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index 2fee990..d7147ae 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -35,6 +35,8 @@ import collections
 import datetime
 import decimal
 
+import pytz
+
 
 ZERO = decimal.Decimal('0')
 ONE = decimal.Decimal('1')
@@ -134,6 +136,26 @@ def _as_decimal(value):
 	return value if isinstance(value, decimal.Decimal) else decimal.Decimal(value or '0')
 
 
+def convert_station_time_to_utc(date, time_zone):
+	"""
+	Converts the station-local date and time to UTC using the offset in force in the time zone at that date and time.
+
+	:param date: The station-local date and time, without time zone information
+	:type date: datetime.datetime
+	:param time_zone: The time zone of the station
+	:type time_zone: datetime.tzinfo
+
+	:return: The UTC date and time, without time zone information
+	:rtype: datetime.datetime
+	"""
+	if hasattr(time_zone, 'localize'):
+		# With pytz, datetime.replace() would use the zone's first known offset (usually local mean time)
+		date = time_zone.localize(date)
+	else:
+		date = date.replace(tzinfo=time_zone)
+	return date.astimezone(pytz.UTC).replace(tzinfo=None)
+
+
 def convert_fahrenheit_to_kelvin(temperature):
 	"""
 	Converts the temperature from degrees Fahrenheit to Kelvin.
-- 
2.43.0


From aa546088d17817b36e1e2f149ed92db5c4c90196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 16/28] fix: results that are not read to the end must not
 break the next statement

---
 weatherlink/exporter/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index a272c03..e278fe3 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -180,7 +180,7 @@ class MySQLExporter(object):
 		cursor = None
 		exc = None
 		try:
-			cursor = self._connection.cursor()
+			cursor = self._connection.cursor(buffered=True)  # So that no result can be left unread
 			if statement:
 				if arguments:
 					cursor.execute(statement, arguments)
-- 
2.43.0


From ea2814cbcdac4dbcca06e70d30ae556b36fe9fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 17/28] fix: roll back the work of a failed database operation

---
 weatherlink/exporter/mysql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index e278fe3..2a5fb83 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -189,6 +189,10 @@ class MySQLExporter(object):
 			yield cursor
 		except Exception as e:
 			exc = e
+			try:
+				self._connection.rollback()  # So that a later commit doesn't commit half of this work
+			except mysql.connector.errors.Error:
+				pass  # The connection is lost, and the uncommitted work with it
 			raise
 		finally:
 			if cursor:
-- 
2.43.0


From ab294b5d0f5439111981708cc1fd10d4a33c1f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 18/28] fix: extremes of zero degrees have a time, too

---
 weatherlink/exporter/mysql.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 2a5fb83..42b849a 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -474,6 +474,10 @@ class MySQLExporter(object):
 		(49, ('thsw_index_high', 'thsw_index_high', ), 'thsw_index_high_timestamp', ),
 	)
 
+	# A high of zero for wind speed, rain rate, solar radiation, or UV index means nothing happened, so nobody holds the
+	# record. For everything else (temperatures, most notably) zero is a value like any other.
+	TIMESTAMP_ZERO_MEANS_NOTHING = frozenset({15, 19, 21, 24})
+
 	def _recalculate_summary_from_arguments(
 		self, cursor, where_clause, where_arguments, summary_type, year, month, week, day,
 		week_start=None, week_end=None,
@@ -538,7 +542,7 @@ class MySQLExporter(object):
 			timestamp_columns += ', ' + rule[2] + ' = %s'
 
 			value = summary_values[rule[0]]
-			if not value:
+			if value is None or (value == 0 and rule[0] in self.TIMESTAMP_ZERO_MEANS_NOTHING):
 				timestamp_values.append(None)
 				continue
 
-- 
2.43.0


From 27b1e7a479399a9c1ac8eeb09d70ef35dd0329dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 19/28] fix: rain events longer than 1440 records can end

---
 weatherlink/exporter/mysql.py | 56 +++++++++++++++++------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 42b849a..e445adf 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -694,35 +694,33 @@ class MySQLExporter(object):
 				event_rain_rates = [start_record[2]]
 				event_max_rain_rate = event_rain_rates[0]
 				event_max_rate_time = last_rain
-				# At a 1-minute resolution (the max), 400 records is greater than 3 hours, so we can limit to that
-				# This limit might have to be increased if the 3-hour rain event threshold is changed
-				cursor.execute(
-					'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
-					'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT 1440;',
-					[start_record[0]],
-				)
-				for (timestamp_station, rain_total, rain_rate_high) in cursor:
-					last_record = timestamp_station
-
-					if (timestamp_station - last_rain).total_seconds() > THREE_HOURS_IN_SECONDS:
-						break
-
-					if rain_total == 0:
-						continue
-
-					last_rain = timestamp_station
-					event_total_rain += rain_total
-					event_rain_rates.append(rain_rate_high)
-					old = event_max_rain_rate
-					event_max_rain_rate = max(event_max_rain_rate, rain_rate_high)
-					if old != event_max_rain_rate:
-						event_max_rate_time = timestamp_station
-
-				try:
-					cursor.fetchall()  # Fetch remaining rows to prevent an error.
-				except mysql.connector.errors.InterfaceError:
-					# This just means there were no remaining rows
-					pass
+				# A rain event can be of any length, so look at the records that follow in batches until it ends
+				more_records = True
+				while more_records:
+					cursor.execute(
+						'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
+						'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT 1440;',
+						[last_record],
+					)
+					records = cursor.fetchall()
+					more_records = bool(records)
+					for (timestamp_station, rain_total, rain_rate_high) in records:
+						last_record = timestamp_station
+
+						if (timestamp_station - last_rain).total_seconds() > THREE_HOURS_IN_SECONDS:
+							more_records = False
+							break
+
+						if rain_total == 0:
+							continue
+
+						last_rain = timestamp_station
+						event_total_rain += rain_total
+						event_rain_rates.append(rain_rate_high)
+						old = event_max_rain_rate
+						event_max_rain_rate = max(event_max_rain_rate, rain_rate_high)
+						if old != event_max_rain_rate:
+							event_max_rate_time = timestamp_station
 
 				if (last_record - last_rain).total_seconds() < THREE_HOURS_IN_SECONDS:
 					# This is an ongoing rain event, so don't record the end yet.
-- 
2.43.0


From 13a78d5e498cb40391a88688091465ff4776b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 20/28] fix: records without a rain measurement do not break
 rain detection

---
 weatherlink/exporter/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index e445adf..eb1d068 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -711,7 +711,7 @@ class MySQLExporter(object):
 							more_records = False
 							break
 
-						if rain_total == 0:
+						if not rain_total:  # None or zero
 							continue
 
 						last_rain = timestamp_station
-- 
2.43.0


From 288b6fcb5bb6cb5dbfd27f5b48bac6cfa456bab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 21/28] fix: a week starts at midnight sharp

---
 weatherlink/exporter/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index eb1d068..f4b634a 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -339,7 +339,7 @@ class MySQLExporter(object):
 
 	def _recalculate_weekly_summary(self, week_year, week_number, date):
 		week_day = date.weekday()
-		week_start = (date - datetime.timedelta(days=week_day)).replace(hour=0, minute=0, second=0)
+		week_start = (date - datetime.timedelta(days=week_day)).replace(hour=0, minute=0, second=0, microsecond=0)
 		week_end = (week_start + datetime.timedelta(days=6)).replace(hour=23, minute=59, second=59)
 
 		with self._get_cursor() as cursor:
-- 
2.43.0


From e53f6d34f9627416511b2dbc9500b834250772ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 22/28] fix: a poller can be constructed (LOOP2 packet type by
 default)

---
 weatherlink/poller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 41e0280..cf9e186 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -30,7 +30,7 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 	def __init__(self, *args, **kwargs):
 		super(Poller, self).__init__(*args, **kwargs)
 
-		self.packet_type = LoopRecord.PACKET_TYPE_LOOP2
+		self.packet_type = self.PACKET_TYPE_LOOP2
 		self._stop_event = None
 
 	def poll(self, num_packets):
-- 
2.43.0


From 6540cd56cd643fde0d719b9e38cc7fe3e2a187b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 23/28] fix: reading the database leaves no transaction open
 that hides later records

---
 weatherlink/exporter/mysql.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index f4b634a..9573833 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -684,7 +684,9 @@ class MySQLExporter(object):
 
 				start_record = cursor.fetchone()
 				if not start_record:
-					# There are no more rain events. We're done.
+					# There are no more rain events. We're done. End the transaction that reading opened, so that the next
+					# run also sees the records that other connections export from now on.
+					self._connection.commit()
 					break
 
 				# This is the start of a new rain event.
@@ -751,4 +753,6 @@ class MySQLExporter(object):
 
 	def get_newest_timestamp(self):
 		with self._get_cursor('SELECT max(timestamp_weatherlink) FROM weather_archive_record;', []) as cursor:
-			return cursor.fetchone()[0]
+			newest_timestamp = cursor.fetchone()[0]
+			self._connection.commit()  # End the transaction that reading opened, so that the next call sees new records
+			return newest_timestamp
-- 
2.43.0


From 5f541c9f60a5da0ac3258bc87bb3ee0b04275dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:39 +0000
Subject: [PATCH 24/28] fix: records can be copied, pickled and asked for an
 attribute they lack

---
 weatherlink/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index ba0c9b0..ab2d10b 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -156,7 +156,10 @@ class RecordDict(dict):
 		super(RecordDict, self).__init__(*args, **kwargs)
 
 	def __getattr__(self, name):
-		return self.__getitem__(name)
+		try:
+			return self.__getitem__(name)
+		except KeyError:
+			raise AttributeError(name)
 
 	def __setattr__(self, name, value):
 		self[name] = value
-- 
2.43.0


From cc73da338b785e51b05efbcf2877a6929ab0263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 25/28] fix: summaries can be recalculated for plain dates

---
 weatherlink/exporter/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 9573833..0ba5ac9 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -339,7 +339,7 @@ class MySQLExporter(object):
 
 	def _recalculate_weekly_summary(self, week_year, week_number, date):
 		week_day = date.weekday()
-		week_start = (date - datetime.timedelta(days=week_day)).replace(hour=0, minute=0, second=0, microsecond=0)
+		week_start = datetime.datetime(date.year, date.month, date.day) - datetime.timedelta(days=week_day)
 		week_end = (week_start + datetime.timedelta(days=6)).replace(hour=23, minute=59, second=59)
 
 		with self._get_cursor() as cursor:
-- 
2.43.0


From 34249fdfb07695fe8e1e9a61f007d68c82485546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:06 +0000
Subject: [PATCH 26/28] fix: a background polling callback that is false in a
 boolean context is called

---
 weatherlink/poller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index cf9e186..bf7c6e8 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -85,12 +85,12 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 				else:
 					packet = LoopRecord.load_loop_2_from_connection(handle)
 
-				if callback:
+				if callback is not None:
 					callback(packet)
 				else:
 					packets.append(packet)
 
-		if not callback:
+		if callback is None:
 			return packets
 
 
-- 
2.43.0


From 31bf6f56391b4967033de8cf4e4ea6123735d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:12 +0000
Subject: [PATCH 27/28] fix: of several threads starting background polling at
 once only one succeeds

---
 weatherlink/poller.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index bf7c6e8..9f78ed8 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -32,6 +32,7 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 
 		self.packet_type = self.PACKET_TYPE_LOOP2
 		self._stop_event = None
+		self._start_lock = threading.Lock()
 
 	def poll(self, num_packets):
 		self._send_poll_instruction(num_packets)
@@ -39,10 +40,11 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 		return self._receive_loop_packets(num_packets)
 
 	def start_background_polling(self, num_packets, callback):
-		if self._stop_event:
-			raise ValueError('Cannot start background polling when already running.')
+		with self._start_lock:  # Several threads may try to start at the same moment, but only one can succeed
+			if self._stop_event:
+				raise ValueError('Cannot start background polling when already running.')
 
-		self._stop_event = threading.Event()
+			self._stop_event = threading.Event()
 
 		try:
 			self._send_poll_instruction(num_packets)
-- 
2.43.0


From 4fcf9386ca8f8a701a47723151ace0ecbe5b8eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:46 +0000
Subject: [PATCH 28/28] fix: a rapid update does not fail because a simple one
 was sent before it

---
 weatherlink/exporter/wunderground.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index a87b334..9b3b804 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -30,7 +30,7 @@ def _get_wind_gust(exporter, *_):
 			old_gust = gust
 			gust = record['wind_speed'] if gust is None else max(gust, record['wind_speed'])
 			if gust != old_gust:
-				gust_direction = record['wind_direction_degrees']
+				gust_direction = record.get('wind_direction_degrees')  # Archive records have none
 
 	return gust, gust_direction
 
@@ -44,7 +44,7 @@ def _get_2_minute_average_wind_direction(exporter, *_):
 			break
 		i += 1
 
-		if record['wind_direction_degrees'] is not None:
+		if record.get('wind_direction_degrees') is not None:  # Archive records have none
 			current_direction_list.append(record['wind_direction_degrees'])
 
 	if not current_direction_list:
-- 
2.43.0

