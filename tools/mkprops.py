"""Writes /verif/properties.jsonl (kept as a script so the text can be edited comfortably)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


S = 'weatherlink/serial.py'
PO = 'weatherlink/poller.py'
M = 'weatherlink/models.py'
U = 'weatherlink/utils.py'
D = 'weatherlink/downloader.py'
I = 'weatherlink/importer.py'
X = 'weatherlink/exporter/mysql.py'
Q = 'weatherlink/exporter/mysql.sql'
W = 'weatherlink/exporter/wunderground.py'

prop('C01', 'Console connections are never leaked, doubled or half-open',
     'Connecting a console communicator that is already connected, or disconnecting one that is not, raises ValueError '
     'and changes nothing; a connect that fails for any reason (no socket, refused, unreachable, even if closing the '
     'socket then fails too) raises that original failure, leaves no socket open and leaves the communicator '
     'disconnected so that a later connect works, and after a disconnect the communicator is disconnected and its '
     'socket closed even if closing reported an error. Connections go to the given host and port, a console\'s being 22222 unless told otherwise; used as a context manager, the connection is '
     'open exactly during the body and released however the body ends. '
     'An error raised by the body is never replaced by an error from disconnecting, and an error from disconnecting '
     'is raised only when the body itself succeeded.',
     ['histories', 'fault_sequences'],
     'every sequence of connect / disconnect / with-block calls, with every combination of socket creation, '
     'connection and close failures and of body outcomes',
     'The tests drive a mocked socket through about ten fixed scripts; they never take a communicator through a '
     'history with several failures, nor against a real socket that stays open when it is leaked.',
     [S], [('connect/disconnect state guard', S + ' SerialIPCommunicator.connect, disconnect'),
           ('context manager', S + ' SerialCommunicator.__enter__/__exit__')],
     ['real TCP connections accepted by a console emulator', 'sockets opened and closed by the communicator'],
     [('socket', 'the one open connection, or none', S + ' SerialIPCommunicator._socket')])

prop('C02', 'A command succeeds only on a genuine ACK byte',
     'After a command is sent, exactly one response byte is consumed and it decides the outcome: 0x06 means success, '
     '0x15 or 0x21 raises NotAcknowledgedError, and every other byte - as well as the console closing the connection '
     'instead of answering - raises InvalidAcknowledgementError. Both errors are AcknowledgmentError and IOError. A '
     'command that was not acknowledged sends nothing further to the console and returns no data.',
     ['inputs', 'fault_sequences'],
     'all 256 response bytes, and end of stream, after every kind of command (setting read, setting write, '
     'foreground poll, background poll), for text and byte commands',
     'The tests check three or four byte values on a mock; nobody tries the other 252, end of stream, or that a '
     'refused command is followed by silence.',
     [S, PO], [('single-byte acknowledgement', S + ' SerialCommunicator.confirm_ack'),
               ('send then confirm', S + ' SerialCommunicator._send_instruction')],
     ['bytes the console emulator received', 'bytes left unread in the stream', 'exception raised'])

prop('C03', 'A console setting is read intact or not at all',
     'Reading a configuration setting sends exactly one read command naming the address and length, and returns '
     'exactly the requested number of setting bytes (followed by the two checksum bytes only when asked for), however '
     'the network fragments the response. If the response is cut short, or its checksum does not verify while '
     'checksum confirmation is on, an IOError (CRCValidationError for a bad checksum) is raised and no value is '
     'returned. The setup-bit and rain-collector readers return the single setup byte masked as requested.',
     ['inputs', 'fault_sequences'],
     'all setting lengths and contents, every truncation point, every single- and multi-bit corruption, every '
     'fragmentation of the response, both checksum options',
     'The tests read two hand-made settings through a mocked file; truncated, fragmented and corrupted '
     'responses over a real stream are not exercised.',
     [S], [('length and CRC check', S + ' ConfigurationSettingMixin.read_config_setting'),
           ('blocking read', S + ' SerialIPCommunicator._get_file_handle'),
           ('masking', S + ' read_setup_bit, read_rain_collector_type')],
     ['return value or exception', 'bytes the console emulator received'])

prop('C04', 'A console setting is written exactly once, checksummed, or not at all',
     'Writing a configuration setting whose value length differs from the declared length raises ValueError and sends '
     'nothing at all. Otherwise exactly one write command is sent and, only after it is acknowledged, the value '
     'followed by its 16-bit checksum in big-endian order is sent exactly once; if it is not acknowledged no byte of '
     'the value is sent. A value written to a console and then read back is unchanged, and other addresses keep '
     'their contents.',
     ['inputs', 'histories', 'fault_sequences'],
     'every sequence of setting writes and reads against a console with EEPROM memory, all values, lengths and '
     'acknowledgement outcomes',
     'One mocked write is tested; no test has a console that stores what it is sent, so ordering, duplication and '
     'checksum byte order across a history are unchecked.',
     [S], [('length guard, ACK gate, checksum', S + ' ConfigurationSettingMixin.write_config_setting')],
     ['EEPROM contents and byte stream of the console emulator'])

prop('C05', 'The checksum is CRC-CCITT and detects corruption',
     'The checksum of any byte string is the CRC-CCITT value used by the console (polynomial 0x1021, initial value '
     'zero, most significant bit first), the same for byte strings and for text holding the same codes. Appending a '
     'message\'s checksum in big-endian order makes the checksum of the whole zero, and any error burst confined to '
     '16 consecutive bits changes the checksum.',
     ['inputs'], 'all byte strings, all burst errors',
     'The tests compute three checksums of fixed messages, touching a small part of the 256-entry table.',
     [M], [('table-driven CRC', M + ' calculate_weatherlink_crc, WEATHERLINK_CRC_TABLE')], ['return value'])

prop('C06', 'A foreground poll returns exactly the packets the console sent, in order',
     'Polling for N packets sends exactly one poll instruction naming the selected packet type and N, and, once '
     'acknowledged, returns a list of exactly N packets, the i-th one decoded from the i-th 99 bytes the console sent, '
     'however the network fragments them. If the stream ends early or a packet is malformed, an error is raised and '
     'no packets are returned. A later poll on the same connection is unaffected by earlier successful polls or '
     'finished background sessions.',
     ['inputs', 'histories', 'fault_sequences'],
     'every N, packet contents, fragmentation, truncation point and malformed position, and sequences of polls',
     'The poller has no tests at all.',
     [PO, S, M], [('receive loop', PO + ' Poller._receive_loop_packets'), ('instruction', PO + ' _send_poll_instruction')],
     ['returned list', 'bytes the console emulator received'])

prop('C07', 'Background polling: one session, lossless, in order, stoppable and restartable',
     'A poller runs at most one background session, independently of other pollers and whichever threads call it: starting while one is running and stopping while none is running raise '
     'ValueError and change nothing, and once a session ends for any reason - all packets delivered, stopped, stream '
     'error, malformed packet, callback error, or the poll instruction failing at start - a new one can be started. '
     'Every packet received is passed to the callback exactly once, in order, and never more than requested. '
     'After a stop is requested at most one more packet is delivered and then exactly one carriage '
     'return is sent to cancel the console\'s transmission (none if all requested packets were already received), '
     'and a session that is not stopped sends nothing.',
     ['schedules', 'histories', 'fault_sequences'],
     'every interleaving of one or two callers\' start / stop calls (and those from inside the callback) with packet arrival, callback '
     'execution and failures, over any number of sessions',
     'The poller has no tests; the interleavings of the caller, the receiving thread and the console cannot be '
     'sampled by unit tests.',
     [PO], [('session flag and stop event', PO + ' Poller.start_background_polling, stop_background_polling'),
            ('receive loop', PO + ' Poller._receive_loop_packets')],
     ['callback invocations', 'bytes the console emulator received', 'exceptions'],
     [('stop event', 'present while a session runs; set when stop was requested', PO + ' Poller._stop_event')])

prop('C08', 'Every LOOP2 packet decodes field by field as the console sent it',
     'A 99-byte LOOP2 packet decodes every documented field from its own bytes with its own scale and sign, turning '
     'the field\'s "no data" value into None; the checksum flag is true exactly when the packet\'s checksum verifies '
     'and never prevents decoding. Directions of 1-360 degrees also get the compass point whose sector holds them (16 '
     'sectors ending at 11, 34, 56, 79, 101, 124, 146, 169, 191, 214, 236, 259, 281, 304, 326 and 349 degrees), other '
     'values get none; rain counters also get inches of 0.01 per click (none for zero clicks); unknown barometric '
     'trends become None. A packet whose fixed bytes are not those of a LOOP2 packet, or that is cut short, raises an error.',
     ['inputs'], 'all packet contents: every value of every field, every fixed byte wrong, every truncation',
     'The tests decode a handful of captured packets and probe some degrees; most values, sentinels, signs and fixed '
     'bytes are never exercised.',
     [M], [('packet layout and field map', M + ' LoopRecord'), ('compass', M + ' WindDirection.from_degrees')],
     ['decoded record'])

prop('C09', 'WeatherLink timestamps and date-times convert back and forth exactly',
     'Every minute from 2000-01-01 00:00 to 2127-12-31 23:59 packs to the documented WeatherLink timestamp '
     '((day + 32*month + 512*(year-2000)) in the upper bits, hour*100+minute in the lower 16) and unpacks to the same '
     'minute. Packing ignores seconds and preserves chronological order. Values that are not date-times pass through '
     'packing unchanged.',
     ['inputs'], 'every minute of the representable range',
     'The tests convert a few fixed dates.',
     [M], [('packing', M + ' convert_datetime_to_timestamp'), ('unpacking', M + ' convert_timestamp_to_datetime')],
     ['return value'])

prop('C10', 'Every downloaded archive record decodes exactly',
     'A 52-byte downloaded record decodes every documented field from its own bytes with its own scale and sign, '
     'turning the field\'s "no data" value into None, with its station date-time and timestamp, rain amount and rate '
     'of 0.01 inch per click, wind directions as compass points with their degrees (north is 360), and the archive interval it was '
     'asked to cover. A record whose date stamp is below 1 means "no more data" and yields nothing. A record that is '
     'cut short or is not of the supported revision raises an error.',
     ['inputs'], 'all record contents',
     'The tests decode none or a few captured records; most values, sentinels and signs are never exercised.',
     [M], [('record layout and field map', M + ' ArchiveIntervalRecord.load_from_download')], ['decoded record'])

prop('C11', 'Every WLK interval record decodes exactly',
     'An 88-byte interval record of a WeatherLink database file decodes every documented field from its own bytes with '
     'its own scale and sign, turning the field\'s "no data" value into None, with its date-time (the given day plus '
     'its minutes past midnight) and timestamp, and wind directions as compass points with their degrees (none for '
     'code 255). The upper four bits of the rain word select the rain collector, which determines the inches of both '
     'amount and rate. A record that is cut short, of another type, or with an unknown '
     'collector or direction code raises an error.',
     ['inputs'], 'all record contents and days',
     'No test decodes an interval record field by field; captured files sample a narrow range of weather.',
     [M], [('record layout and field map', M + ' ArchiveIntervalRecord.load_from_wlk')], ['decoded record'])

prop('C12', 'Every WLK daily summary decodes exactly',
     'A 176-byte daily summary of a WeatherLink database file decodes every documented field from its own bytes with '
     'its own scale and sign, turning the field\'s "no data" value into None, dated with the given day. '
     'A summary that is cut short or whose two type markers are wrong raises an error.',
     ['inputs'], 'all summary contents and days',
     'No test decodes a daily summary.',
     [M], [('record layout and field map', M + ' DailySummary.load_from_wlk')], ['decoded summary'])

prop('C13', 'Importing a WLK file yields every record, in order, under its own day',
     'Importing a monthly file yields, for each day of the file\'s index, that day\'s summary and all of its '
     'interval records (the day\'s count of 88-byte records less the two that hold its summary), in '
     'file order both overall and per day, each dated in the year and month of the file name; days without '
     'records contribute nothing. The file name must end in YYYY-MM.wlk. A truncated or malformed file raises instead of '
     'yielding a partial result silently.',
     ['inputs'], 'every arrangement of day indexes and records, every truncation point',
     'No test imports a generated file; the sample file is one arrangement.',
     [I, M], [('day loop', I + ' Importer.import_data'), ('header', M + ' Header, DayIndex')],
     ['header, daily_summaries, records, daily_records'])

prop('C14', 'A web download returns exactly the records the service announced',
     'A download makes exactly two requests, headers then data, both carrying the packed starting timestamp, the '
     'user name, password and API token (none of which may be missing) unaltered after URL decoding; an answer of the wrong content type, transfer or '
     'content encoding, or for another station model, raises before any data is used. On success the records are '
     'exactly the announced number of records in order - fewer only if the service sends an empty record, which ends the '
     'list - each covering the announced archive interval, and a data response that is cut short raises. The console '
     'version, archive interval, record count and account maximum are those announced, and the records of earlier downloads stay as they were.',
     ['inputs', 'fault_sequences'],
     'all credentials, header answers, record counts, record contents, empty-record positions and truncation points',
     'The downloader has no unit tests.',
     [D, M], [('request and response checks', D + ' Downloader.download'), ('headers', D + ' _process_headers'),
              ('record loop', D + ' _process_download')],
     ['requests seen at the HTTP transport', 'records and announced attributes'])

prop('C16', 'Rain clicks convert to inches and centimetres by collector type',
     'For each rain collector type (0.01 inch, 0.1 inch, 0.2 mm, 0.1 mm, 1 mm), n clicks are exactly n times the '
     'collector size, in centimetres or inches, with one centimetre being 0.393701 inch. Zero '
     'clicks are zero, and the amount is additive and strictly increasing in the number of clicks. The collector types '
     'reported over the serial link and stored in database files agree wherever both exist.',
     ['inputs'], 'all collector types and click counts',
     'The tests convert a few click counts per type.',
     [M], [('conversions', M + ' RainCollectorTypeSerial, RainCollectorTypeDatabase')], ['return value'])

prop('C17', 'Unit conversions are correctly rounded and invert each other',
     'Fahrenheit, Celsius and Kelvin conversions return the exact value rounded to the nearest thousandth, '
     'inches of mercury convert to kilopascals and millibars at 0.295299830714 inHg per kPa rounded to two decimals, '
     'and miles per hour to metres per second at 0.44704 rounded to five decimals. All are strictly order-preserving up to '
     'rounding, and converting a temperature to another scale and back returns the original to within 0.002 degrees.',
     ['inputs'], 'all temperatures, pressures and speeds in the measurable range, as integers or decimals',
     'The tests convert a few values per function.',
     [U], [('conversions', U + ' convert_*')], ['return value'])

prop('C18', 'Heat and THW indexes follow the NWS rules everywhere',
     'The heat index is absent below 70F; otherwise it is the NWS value, rounded up to a tenth: the average of the '
     'simple formula and the temperature while that is below 80F, else the nine-term regression, reduced below 13% humidity '
     'between 80F and 112F and increased above 85% humidity between 80F and 87F as the NWS prescribes. The THW index is the heat '
     'index less 1.072 degrees per mile per hour of wind (that reduction rounded up to a tenth), and absent when the '
     'heat index is.',
     ['inputs'], 'all temperatures (tenths of a degree), humidities and wind speeds',
     'The tests compare chart entries, which lie inside the regions; boundaries between the formulas and most of the '
     'adjustment ranges are not sampled.',
     [U], [('heat index', U + ' calculate_heat_index'), ('THW', U + ' calculate_thw_index')], ['return value'])

prop('C19', 'Wind chill follows the NWS formula and never exceeds the temperature',
     'Wind chill is absent above 40F, equals the temperature when there is no wind, and is otherwise 35.74 + 0.6215 T '
     '- 35.75 V^0.16 + 0.4275 T V^0.16 rounded down to a tenth, but never more than the temperature itself. '
     'It never rises as the wind gets stronger.',
     ['inputs'], 'all temperatures (tenths of a degree) and wind speeds (tenths of a mile per hour)',
     'The tests compare chart entries of whole degrees and multiples of five miles per hour.',
     [U], [('wind chill', U + ' calculate_wind_chill')], ['return value'])

prop('C20', 'Dew point, wet bulb and THSW values follow their published formulas',
     'Dew point (Bogel-modified Magnus formula), wet-bulb temperature (NWS approximation from temperature, humidity and pressure) and '
     'the THSW index (Australian apparent temperature with a radiation term) equal their published '
     'formulas, with Celsius to thousandths, millibars to hundredths and speeds to five decimals, to within rounding to a tenth of a degree. '
     'Neither dew point nor wet bulb exceeds the temperature by more than rounding at ordinary conditions.',
     ['inputs'], 'all temperatures, humidities, pressures, radiations and wind speeds in the measurable range',
     'The tests compare a few dozen points.',
     [U], [('formulas', U + ' calculate_dew_point, calculate_wet_bulb_temperature, calculate_thsw_index')], ['return value'])

prop('C21', 'Heating and cooling degree days are the distance from 65F',
     'Heating degree days are exactly 65 minus the average temperature when that is below 65F and absent otherwise; '
     'cooling degree days are exactly the average minus 65 when above 65F and absent otherwise. For an unknown average both '
     'are absent, never an error, and never are both present.',
     ['inputs'], 'all average temperatures including none',
     'The tests try a few averages and never an unknown one.',
     [U], [('degree days', U + ' calculate_heating_degree_days, calculate_cooling_degree_days')], ['return value'])

prop('C22', 'The 10-minute wind maximum is the best window of ten recorded minutes',
     'Counting each record once per whole minute it covers, with its timestamp ending the last of those minutes, the '
     'result is the largest average speed over the last ten such minutes at the end of any record, the first such '
     'window if several tie, with the most common wind direction among its ten minutes and the timestamps of its '
     'first and last minute. All four results are None if fewer than ten minutes are recorded, if the largest average '
     'is zero, or if any record examined covers more than ten minutes; a missing speed counts as zero.',
     ['inputs'], 'all sequences of records, with covered minutes 0-12, missing speeds and directions, gaps in time',
     'The tests use one day of 5-minute data and a few short lists.',
     [U], [('sliding window', U + ' calculate_10_minute_wind_average')], ['returned tuple'])

prop('C23', 'Derived values use the right measurements and survive missing ones',
     'For every archive record, each derived quantity is present exactly when the measurements it needs are present, '
     'and computing it never raises for a missing measurement; a temperature of 0.0 degrees, or a derived value of '
     'zero, is a measurement like any other, while zero humidity, pressure or radiation counts as none and zero wind makes no wind run or chill. The low and high of dew point, heat index, wind chill, THW and THSW are the '
     'minimum and maximum over the current, low and high temperature combined with average and high wind (and average and high '
     'solar radiation), and the current value is the first available of those combinations, the current temperature with average '
     'wind and radiation first. Wet bulb values belong to the current, low and high temperature respectively, and wind run is '
     'average wind speed in miles per minute times the minutes covered.',
     ['inputs'], 'every combination of present, absent and zero measurements',
     'No test calls the function that derives record values.',
     [U], [('derivation', U + ' calculate_all_record_values')], ['returned values'])

prop('C24', 'An exported archive record is stored completely and unchanged',
     'Exporting a record inserts exactly one committed row whose columns hold every measurement of the record under its '
     'documented column, wind directions by name, the derived values, the station date-time, its year, month and day, and '
     'NULL where the record has no value. A column mapped to the documented "do not insert" marker is left out, other custom mappings '
     'and table names are honoured, and exporting the same timestamp twice fails without changing '
     'the stored row.',
     ['inputs', 'histories', 'configurations'], 'every record, column map and table name, and sequences of exports',
     'The exporter has no tests.',
     [X, Q], [('insert construction', X + ' MySQLExporter.export_record, _add_*_values_to_arguments')],
     ['rows visible to another connection'])

prop('C25', 'Station times convert to true UTC in every season',
     'The UTC time stored with an archive record and the one sent to Weather Underground are the record\'s station-local '
     'time converted with the offset in force in the station\'s time zone at that moment, daylight saving time included, '
     'for every zone whether given by name or as an object (America/Chicago by default). In the repeated hour at the end of daylight saving '
     'time either offset is acceptable, and in the skipped hour either side\'s offset is.',
     ['inputs', 'configurations'], 'all date-times and time zones',
     'The exporters have no tests.',
     [X, W], [('UTC conversion', X + ' _add_timestamp_values_to_arguments; ' + W + ' _send_update')],
     ['stored timestamp_utc', 'dateutc parameter'])

prop('C26', 'The daily summary is the exact aggregate of that day\'s records',
     'Recalculating a date leaves exactly one daily summary for it whose every low, high, average and total is the minimum, '
     'maximum, mean or sum of that day\'s archive records (in the column\'s precision, missing values ignored), whose '
     'degree days derive from the mean temperature and whose 10-minute wind maximum is that of the day\'s records. The '
     'prevailing and gust directions are a most common direction of all records and of the records holding the highest gust. '
     'Records of other days never influence it, and days with no data in a column get NULL rather than an error.',
     ['inputs', 'histories'], 'every set of archive records and every order of exports and recalculations',
     'The exporter has no tests.',
     [X, Q], [('aggregation', X + ' _recalculate_daily_summary, _recalculate_summary_from_arguments')],
     ['rows of the summary table visible to another connection'])

prop('C27', 'Weekly, monthly and yearly summaries cover exactly their periods',
     'Recalculating dates leaves, for each touched ISO week (Monday through Sunday, numbered by ISO year and week), calendar month '
     'and calendar year, exactly one summary aggregating exactly the archive records stamped in that period, whatever the order or '
     'repetition of the dates and also across month and year ends. Their degree days, best 10-minute wind and average wind runs '
     'aggregate the shorter-period summaries they contain: daily ones for weeks and months; monthly ones for years, with daily, weekly '
     'and monthly average wind runs. Recalculating again without new records changes nothing, and other periods are untouched.',
     ['inputs', 'histories'], 'every set of archive records and every sequence of recalculations over any dates',
     'The exporter has no tests.',
     [X, Q], [('grouping of dates', X + ' recalculate_summaries_for_dates'),
              ('period clauses', X + ' _recalculate_weekly_summary, _recalculate_monthly_summary, _recalculate_yearly_summary')],
     ['rows of the summary table visible to another connection'])

prop('C28', 'Every extreme is stamped with the first moment it was reached',
     'In every summary each low or high that has a time is stamped with the earliest station time in the period at which '
     'that exact value was recorded, once the days it contains have been recalculated, for every recorded value including zero and below; only a zero high wind, rain rate, solar or UV '
     'value, which means nothing happened, and a missing extreme have no time. The time always lies within the summary\'s period.',
     ['inputs', 'histories'], 'every set of archive records with ties, zeros and negative values, for all four period lengths',
     'The exporter has no tests.',
     [X], [('record-holder rules', X + ' TIMESTAMP_CALCULATION_RULES, _recalculate_summary_from_arguments')],
     ['timestamp columns of the summary table'])

prop('C29', 'Rain events partition the rain records at gaps of more than three hours',
     'After rain detection every archive record with rain belongs to exactly one event, events do not overlap, and two successive rain '
     'records share an event exactly when they are at most three hours apart. Each event\'s start is its first rain record, its total is '
     'the sum of their rain, its highest rate the maximum with the first time it was reached, its average rate their mean to a hundredth, '
     'and its end the last rain record once at least three hours of records without rain follow, or none while '
     'it may continue. The returned counts are the number of newly finished events and whether one is still going on.',
     ['inputs'], 'every sequence of archive records: any spacing, any length, rain anywhere',
     'The exporter has no tests.',
     [X], [('event scan', X + ' MySQLExporter.find_new_rain_events')], ['rows of the rain event table', 'returned counts'])

prop('C30', 'Detecting rain incrementally gives the same events as detecting it once',
     'However archive records arrive in time order and whenever detection runs in between, once all have arrived and detection has run the events are '
     'the same as a single run over all records would have produced, an event being updated in place '
     'while it is going on. Detection always terminates, never duplicates or loses an event, and running it again without new records '
     'changes nothing.',
     ['histories', 'inputs'], 'every split of every record sequence into batches with detection runs in between',
     'The exporter has no tests.',
     [X], [('resume after the newest finished event', X + ' MySQLExporter.find_new_rain_events')],
     ['rows of the rain event table'])

prop('C31', 'A failing database operation leaves nothing half done',
     'If any statement of an export, one period\'s summary recalculation or one rain event fails, the error is raised, nothing of that '
     'unit of work ever becomes visible to others - not even after later successful work on the same connection - and '
     'work committed before it stays. After the failure the same exporter, once reconnected if the connection was lost, can repeat the operation with the '
     'result it would have had. Disconnecting is idempotent, always drops the connection, '
     'and in a with block never hides the body\'s error.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every statement of every operation failing or losing the connection, followed by any further operations',
     'The exporter has no tests, and faults between statements cannot be produced without a database.',
     [X], [('transaction handling', X + ' MySQLExporter._get_cursor and the commits in each operation'),
           ('connection lifecycle', X + ' connect, disconnect, __exit__')],
     ['tables as seen by another connection after each operation'])

prop('C32', 'Resumable synchronisation stores every downloaded record exactly once',
     'Repeatedly asking the database for the newest stored timestamp, downloading from it and exporting the records in order '
     'stores every record of the service exactly once and in full, whatever sessions are '
     'interrupted by download errors, database errors or crashes in between. The newest timestamp is that '
     'of the chronologically latest stored record, and none for an empty database.',
     ['histories', 'crash_points', 'fault_sequences'],
     'every schedule of new records, partial downloads, failures and restarts',
     'No test combines downloader and exporter.',
     [X, D, M], [('newest timestamp', X + ' get_newest_timestamp'), ('timestamp order', M + ' convert_datetime_to_timestamp'),
                 ('atomic insert', X + ' export_record')],
     ['archive table', 'requests seen by the service'])

prop('C33', 'Weather Underground updates carry the record and succeed only on success',
     'An update makes exactly one request, to the simple or the rapid-fire service, carrying station id, password and UTC time and, '
     'URL-encoded, every measurement present in the record under its documented parameter (omitting missing ones), including a '
     'dew point calculated from temperature and humidity for simple updates. It returns normally exactly when '
     'the answer has a 2xx status and the text "success", and raises otherwise. A missing measurement never makes it fail.',
     ['inputs', 'fault_sequences'], 'every record with any subset of measurements, every answer of the service, any credentials',
     'The exporter has no tests.',
     [W], [('URL construction and response check', W + ' WundergroundExporter._send_update'),
           ('attribute maps', W + ' ATTRIBUTE_MAP_*')], ['requests seen at the HTTP transport', 'exception raised'])

prop('C34', 'Rapid-fire gust and average direction come from exactly the recent past',
     'In a rapid-fire update the gust is the highest wind speed among the 25 newest records sent in updates of either kind (including this one), with the wind direction '
     'of the newest record that reached it, and the two-minute average wind direction is a direction average over those of the 49 newest records that have a direction, '
     'which always lies within the smallest arc containing them when that arc is less than a half circle. Records without a speed or direction are ignored, and without any the value is '
     'omitted. Older records have no influence.',
     ['histories', 'inputs'], 'every sequence of records and kinds of updates, with missing speeds and directions',
     'The exporter has no tests.',
     [W], [('record queue', W + ' record_queue'), ('gust', W + ' _get_wind_gust'),
           ('average direction', W + ' _get_2_minute_average_wind_direction')],
     ['requests seen at the HTTP transport'], [('queue', 'the newest 50 records, newest first', W + ' WundergroundExporter.record_queue')])

prop('C35', 'A database file reaches the archive, the summaries and the rain events whole',
     'Importing a monthly database file and exporting its records stores one row per interval record, holding every measurement '
     'of the record\'s bytes in the precision of its column, the rain by the size of the collector\'s clicks, and the date given '
     'by file name, day and minute. Importing files in any order, again, by several clients at once or after an interruption stores exactly '
     'the records that are missing; exporting one whose minute is stored fails and changes nothing. After recalculating the dates of the records '
     'every day, ISO week, month and year touched has exactly one summary, the aggregate of those rows, and rain detection '
     'leaves events that hold all of the files\' rain, each part once.',
     ['inputs', 'histories', 'crash_points', 'schedules'],
     'every set of database files, every schedule of imports, interruptions and recalculations',
     'No test combines importer and exporter.',
     [I, M, X, Q], [('import', I + ' Importer.import_data'), ('decoding', M + ' ArchiveIntervalRecord.load_from_wlk'),
                    ('atomic insert', X + ' export_record'), ('summaries', X + ' recalculate_summaries_for_dates'),
                    ('rain events', X + ' find_new_rain_events')],
     ['archive, summary and rain event tables'])

prop('C36', 'Live packets reach Weather Underground once each, with their own values',
     'When the packets a poller receives, as results of poll or through the callback of background polling, are dated and handed to the exporter '
     'as rapid updates, each packet gives exactly one request, in the order of handing over, with the values of its own bytes in the '
     'units of the service and its own UTC time, its gust and average direction those of the packets handed over in the '
     'last minute (25 packets) and two minutes (49). A session that ends, is stopped, is cut off or ends because an update '
     'fails has handed over exactly the packets before that point, at most one more after a stop. Later '
     'sessions and updates go on with the packets that follow, with the earlier ones still in the windows.',
     ['inputs', 'histories', 'fault_sequences'],
     'every stream of packets, every order of polls, sessions, stops, failures and updates',
     'No test combines the poller with the exporter; aliased or reused records show only there.',
     [PO, M, W], [('packets', PO + ' _receive_loop_packets'), ('decoding', M + ' LoopRecord.load_loop_2_from_connection'),
                 ('updates', W + ' send_rapid_update'), ('windows', W + ' record_queue')],
     ['requests at the service'])

prop('C37', 'A record is one set of values however it is read, changed or copied',
     'A record of any kind (packet, archive record, daily summary, header, day index) shows the same values as attributes and as items after any '
     'sequence of changes made either way; a name it lacks raises AttributeError as an attribute and KeyError as an item, hasattr and '
     'in say no, and getattr and get give the default. Copying, deep-copying and pickling a record gives another record of its class with '
     'equal contents. Later changes of either show in the other only through records nested in both, which deep copies and pickles '
     'never share and shallow copies always do.',
     ['histories'],
     'every sequence of constructing, decoding, reading, changing, nesting, copying and pickling records',
     'The tests read decoded records only.',
     [M], [('records', M + ' RecordDict'), ('kinds of records', M + ' Header, DayIndex, DailySummary, ArchiveIntervalRecord, LoopRecord')],
     ['contents, identity and outcomes of operations on records'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import re
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    n = len(re.findall(r'[.](?:\s+(?=[A-Z])|$)', p['statement']))
    if n > 3:
        print(p['id'], 'sentences', n)
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
