"""archive.py MODE [BEHAVIOURS] OUT: records exported to an emulated MySQL server; MODE is C24 (contents) or C25 (UTC times)."""
import datetime
import json
import re
import sys
from decimal import Decimal as D

from common import BAD, THOROUGH, Hang, Trace, halves, limit, odirection, repo_module, rng
import mysqlserver
import records
import zones

exporter = repo_module('weatherlink.exporter.mysql')
utils = repo_module('weatherlink.utils')
models = records.models
MODE = sys.argv[1]
TRACE = Trace(sys.argv[-1])
R = rng('archive-' + MODE)
MARK = '__do_not_insert_this_value__'
TABLE = 'weather_archive_record'
DIRECTIONS = ('wind_direction_prevailing', 'wind_direction_speed_high')
MEASURED = ('minutes_covered', 'temperature_outside', 'temperature_outside_low', 'temperature_outside_high', 'temperature_inside',
            'humidity_outside', 'humidity_inside', 'barometric_pressure', 'wind_speed', 'wind_speed_high', 'rain_amount', 'rain_rate',
            'rain_amount_clicks', 'rain_rate_clicks', 'solar_radiation', 'solar_radiation_high', 'uv_index', 'uv_index_high',
            'evapotranspiration')
DERIVED = tuple(
    'wind_run_distance_total temperature_wet_bulb temperature_wet_bulb_low temperature_wet_bulb_high dew_point_outside '
    'dew_point_outside_low dew_point_outside_high dew_point_inside heat_index_outside heat_index_outside_low heat_index_outside_high '
    'heat_index_inside wind_chill wind_chill_low wind_chill_high thw_index thw_index_low thw_index_high thsw_index thsw_index_low '
    'thsw_index_high'.split())
COLUMNS = {'rain_amount': 'rain_total', 'rain_rate': 'rain_rate_high', 'rain_amount_clicks': 'rain_clicks',
           'rain_rate_clicks': 'rain_click_rate_high', 'wind_direction_prevailing': 'wind_speed_direction',
           'wind_direction_speed_high': 'wind_speed_high_direction', 'timestamp': 'timestamp_weatherlink', 'date': 'timestamp_station'}
OPTIONAL = [a for a in MEASURED + DERIVED + DIRECTIONS if a != 'minutes_covered']
with open(mysqlserver.SCHEMA_FILE, encoding='utf-8') as f:
    SCHEMA = f.read()


def micro(v):
    """[[whole, millionths]]; more digits than that are rounded, which no column can tell."""
    if v is None:
        return []
    try:
        n = int((D(v) * 1000000).quantize(D(1)))
    except Exception:
        return [[BAD, 0]]
    return [[n // 1000000, n % 1000000] if abs(n) < 10 ** 12 else [BAD, 0]]


def cell(column, v):
    if v is None:
        return []
    try:
        if column.name.endswith('weatherlink') or column.kind == 'bigint':
            return halves(v)
        if column.kind == 'enum':
            return odirection(v)
        if column.kind == 'datetime':
            t = datetime.datetime.strptime(v, '%Y-%m-%d %H:%M:%S')
            return [zones.minute(t) if not t.second else BAD]
        n = D(repr(v)).scaleb(column.scale if column.kind == 'decimal' else 0)
        return [int(n) if n == int(n) and abs(n) < 2 ** 31 else BAD]
    except Exception:
        return [BAD]


class History(object):
    def __init__(self, zone='America/Chicago', give=None, overrides=None, table=TABLE):
        overrides = overrides or {}
        text = SCHEMA
        for a, c in overrides.items():
            if c != MARK:
                old = COLUMNS.get(a, a)
                head, tail = text.split('CREATE TABLE `weather_calculated_summary`')
                text = re.sub(r'`%s`' % old, '`%s`' % c, head) + 'CREATE TABLE `weather_calculated_summary`' + tail
        text = text.replace('`weather_archive_record`', '`%s`' % table)
        self.db = mysqlserver.serve(mysqlserver.Database(text=text))
        self.table, self.zone, self.give, self.overrides, self.steps = table, zone, give, overrides, []
        self.exporters = []

    def exporter(self):
        e = exporter.MySQLExporter('user', 'pass', 'weather')
        if self.give is not None:
            e.station_time_zone = self.give
        if self.overrides or R.random() < 0.2:
            e.archive_table_column_map = dict(exporter.MySQLExporter.DEFAULT_ARCHIVE_TABLE_COLUMN_MAP, **self.overrides)
        elif R.random() < 0.2:
            e.archive_table_column_map = R.choice((None, {}))           # the usual one
        if self.table != TABLE or R.random() < 0.2:
            e.archive_table_name = self.table
        elif R.random() < 0.2:
            e.archive_table_name = R.choice((None, ''))
        e.connect()
        self.exporters.append(e)
        return e

    def export(self, e, r):
        d = r['date']
        shown = dict(timestamp=halves(r['timestamp']), date=[d.year, d.month, d.day, d.hour, d.minute])
        for a in MEASURED:
            shown[a] = micro(r[a]) if a in r else []
        for a in DIRECTIONS:
            shown[a] = odirection(r[a])
        try:
            calculated = utils.calculate_all_record_values(models.ArchiveIntervalRecord(r))
        except Exception:           # C23 judges that
            return
        for a in DERIVED:
            shown[a] = micro(calculated.get(a))
        try:
            with limit(10):
                e.export_record(r)
            out = 'ok'
        except Hang:
            out = 'hang'
        except Exception:
            out = 'error'
        columns = self.db.tables[self.table][0]
        rows = [{c.name: cell(c, v) for c, v in zip(columns, row)} for row in
                self.db.look('SELECT * FROM "%s" ORDER BY record_id' % self.table)]
        elsewhere = sum(self.db.look('SELECT count(*) FROM "%s"' % t)[0][0] for t in self.db.tables if t != self.table)
        self.steps.append(dict(record=shown, out=out, rows=rows, elsewhere=elsewhere))

    def end(self):
        for e in self.exporters:
            e.disconnect()
        self.db.close()
        if self.steps:
            TRACE.case(n=len(self.steps), zone=self.zone, overrides=self.overrides, steps=self.steps)


def moment():
    first = datetime.datetime(R.randrange(2001, 2037), R.choice((1, R.randrange(1, 13))), 1)
    if R.random() < 0.4:        # at the end of a month, or of a year
        return first + datetime.timedelta(minutes=R.choice((-1, -5, -60, -300, -360, -361, -420, -1440, 0, 1, 60, 1439)))
    return first + datetime.timedelta(days=R.randrange(31), hours=R.randrange(24), minutes=R.randrange(60))


def usable(date, **kw):
    return records.record(R, date, **kw)


def one(r, **kw):
    h = History(**kw)
    h.export(h.exporter(), r)
    h.end()


def contents():
    # one record each: everything there, one value missing, only one value there, one value zero
    for kind in ('download', 'wlk'):
        h = History()
        e = h.exporter()
        for a in (None,) + MEASURED[1:] + DIRECTIONS:
            for how in ('missing', 'only', 'zero'):
                r = usable(moment(), kind=kind, missing=0)
                if a is not None and a in r:
                    if how == 'missing':
                        r[a] = None
                    elif how == 'only':
                        for b in MEASURED[1:] + DIRECTIONS:
                            if b in r and b != a:
                                r[b] = None
                    elif a not in DIRECTIONS:
                        r[a] = D('0.0') if R.random() < 0.5 else 0
                h.export(e, r)
                if len(h.steps) >= 3:
                    h.end()
                    h = History()
                    e = h.exporter()
        h.end()
    for p in records.POINTS:
        r = usable(moment(), missing=0.5)
        r['wind_direction_prevailing'], r['wind_direction_speed_high'] = p, R.choice(records.POINTS + [None])
        one(r)
    # histories: repeated time stamps, several connections, any order, other zones
    for _ in range(1200 if THOROUGH else 150):
        name = R.choice(list(zones.NAMES))
        give = None if R.random() < 0.5 else R.choice(zones.ways(R, name))
        h = History(zone='America/Chicago' if give is None else name, give=give)
        dates = [moment() for _ in range(3)]
        dates[1] = dates[0] + datetime.timedelta(minutes=R.choice((1, 5, 60, 1440)))
        e = h.exporter()
        for _ in range(R.randrange(1, 7)):
            if R.random() < 0.2:
                e.disconnect()
                e.connect()
            elif R.random() < 0.2:
                e = h.exporter()
            r = usable(R.choice(dates), missing=R.choice((0, 0.1, 0.5, 0.9, 1)))
            if R.random() < 0.05:       # does not fit its column
                r['temperature_inside'] = D('1500.5')
            h.export(e, r)
        h.end()
    # the histories TLC enumerates: which connection exports which of two records to which of two time stamps
    with open(sys.argv[2]) as f:
        shapes = [json.loads(line) for line in f]
    for shape in shapes:
        h = History()
        dates = (moment(), moment())
        contents = {(w, v): usable(dates[w - 1], missing=0.3) for w in (1, 2) for v in (0, 1)}
        connections = {}
        for step in shape:
            if step[0] == 'reconnect':
                for e in connections.values():
                    e.disconnect()
                    e.connect()
            else:
                _, w, v, e = step
                if e not in connections:
                    connections[e] = h.exporter()
                h.export(connections[e], contents[w, v])
        h.end()
    # column maps and table names
    for _ in range(600 if THOROUGH else 100):
        overrides = {}
        for a in OPTIONAL:
            x = R.random()
            if x < 0.12:
                overrides[a] = MARK
            elif x < 0.2:
                overrides[a] = 'my_' + a
        if R.random() < 0.3:
            overrides['date'] = 'my_date'
        if R.random() < 0.3:
            overrides['timestamp'] = 'my_weatherlink'
        if R.random() < 0.2:
            overrides['summary_' + R.choice(('year', 'month', 'day'))] = 'my_part'
        if R.random() < 0.2:
            overrides['timestamp_utc'] = 'my_utc'
        if R.random() < 0.1:
            overrides = {R.choice(OPTIONAL): R.choice((MARK, 'x'))}
        h = History(overrides=overrides, table=R.choice((TABLE, 'my_records')))
        e = h.exporter()
        r = usable(moment(), missing=0.05)
        h.export(e, r)
        h.export(e, usable(moment(), missing=0.3))
        if R.random() < 0.5:
            h.export(e, r)
        h.end()


def times():
    for name, give, t in zones.cases(R, 12 if THOROUGH else 2):
        one(usable(t, missing=0.9), zone=name, give=give)
    for name, give, ts in zones.spells(R, 6 if THOROUGH else 1):
        h = History(zone=name, give=give)
        e = h.exporter()
        for t in ts:
            h.export(e, usable(t, missing=0.9))
        h.end()
    for t in zones.moments(R, 'America/Chicago', 20):
        one(usable(t, missing=0.9))


{'C24': contents, 'C25': times}[MODE]()
TRACE.close()
