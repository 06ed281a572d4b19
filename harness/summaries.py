"""summaries.py MODE BEHAVIOURS SLICE SLICES OUT: records come in, dates are recalculated, and the summary table is read by another connection.
MODE is C26 (daily), C27 (longer periods) or C28 (times of extremes); it only weighs what is generated."""
import datetime
import json
import sys

from common import BAD, DIRECTIONS, THOROUGH, Hang, Trace, limit, repo_module, rng
import mysqlserver
import records
import zones

exporter = repo_module('weatherlink.exporter.mysql')
models = repo_module('weatherlink.models')
MODE = sys.argv[1]
TRACE = Trace(sys.argv[-1])
SLICE, SLICES = int(sys.argv[3]), int(sys.argv[4])
R = rng('summaries-%s-%s' % (MODE, SLICE))
ARCHIVE, SUMMARY = 'weather_archive_record', 'weather_calculated_summary'
DAY = datetime.timedelta(days=1)

TEMPERATURES = ('temperature_outside', 'temperature_inside', 'temperature_wet_bulb', 'dew_point_outside', 'dew_point_inside',
                'heat_index_outside', 'heat_index_inside', 'wind_chill', 'thw_index', 'thsw_index')
NOT_JUDGED = {'record_id', 'timestamp_weatherlink', 'timestamp_utc', 'timestamp_station', 'summary_year', 'summary_month', 'summary_day',
              'rain_clicks', 'rain_click_rate_high', 'wind_run_distance'}
KEY = ('summary_id', 'summary_type', 'summary_year', 'summary_month', 'summary_week', 'summary_day', 'week_start', 'week_end')


def moment(text):
    t = datetime.datetime.strptime(text, '%Y-%m-%d %H:%M:%S')
    return BAD if t.second or t.microsecond else zones.minute(t)


def day_number(text):
    return zones.minute(datetime.datetime.strptime(text, '%Y-%m-%d')) // 1440


def cell(column, v):
    if v is None:
        return []
    try:
        if column.kind == 'enum':
            return [DIRECTIONS.index(v)]
        if column.kind == 'datetime':
            return [moment(v)]
        if column.kind == 'date':
            return [day_number(v)]
        if column.kind == 'time':
            h, m, s = v.split(':')
            return [int(h) * 60 + int(m) if s == '00' else BAD]
        n = mysqlserver.D(repr(v)).scaleb(column.scale if column.kind == 'decimal' else 0)
        return [int(n) if n == int(n) and abs(n) < 2 ** 31 else BAD]
    except Exception:
        return [BAD]


def digits(column):
    return column.scale if column.kind == 'decimal' else 0


class Style(object):
    """What the measurements of a history look like: few different values (ties), zeros, one sign, missing columns, long intervals."""
    def __init__(self):
        self.missing = R.choice((0, 0, 0.1, 0.4, 0.8))
        self.gone = {c for c in range(60) if R.random() < R.choice((0, 0, 0.1, 0.3))}
        self.spread = R.choice((1, 2, 2, 3, 30, 400))
        self.middle = R.choice((0, 0, 0, 1, -40, 320, 650, 650, 655, 700, -2000))
        self.minutes = R.choice(((1,), (5,), (10,), (1, 2, 5), (5, 10), (15,), (1, 5, 10, 15, 30), (3, 4)))
        self.calm = R.choice((0, 0.2, 0.9, 1))
        self.points = R.choice((1, 2, 3, 16))
        self.unknown = R.choice((0, 0, 0.3, 0.6))

    def value(self, n, column):
        if n in self.gone or R.random() < self.missing:
            return None
        name = column.name
        if column.kind == 'enum':
            return None if R.random() < self.unknown else DIRECTIONS[R.randrange(self.points)]
        if name.startswith(TEMPERATURES):
            v = self.middle + R.randrange(-self.spread, self.spread + 1)
        elif name == 'barometric_pressure':
            v = R.choice((30000, 29000, 0)) + R.randrange(self.spread + 1)
        elif name.startswith('humidity'):
            v = min(100, R.choice((0, 40, 99)) + R.randrange(self.spread + 1))
        elif name in ('wind_speed', 'wind_speed_high', 'rain_total', 'rain_rate_high', 'solar_radiation', 'solar_radiation_high', 'uv_index',
                      'uv_index_high', 'wind_run_distance_total', 'evapotranspiration'):
            if R.random() < self.calm:
                v = 0
            else:
                v = R.randrange(self.spread + 1) * R.choice((1, 1, 3))
                if name == 'rain_rate_high' and R.random() < 0.1:
                    v = 99990 + R.randrange(9)
            if name.startswith('uv'):
                v = min(v, 160)
        else:
            raise KeyError(name)
        return str(mysqlserver.D(v).scaleb(-digits(column)))


class History(object):
    def __init__(self):
        self.db = mysqlserver.serve(mysqlserver.Database())
        self.columns = self.db.tables[ARCHIVE][0]
        self.measured = [c for c in self.columns if c.name not in NOT_JUDGED]
        self.steps, self.pool, self.known = [], [], {}
        self.times, self.read = set(), set()
        self.style = Style()
        self.writer = None
        self.exporters = []

    def table(self):
        columns = self.db.tables[SUMMARY][0]
        out = []
        for row in self.db.look('SELECT * FROM "%s" ORDER BY summary_id' % SUMMARY):
            if row not in self.known:
                r = dict(zip((c.name for c in columns), row))
                start, end = ([] if r[c] is None else cell(k, r[c]) for c in ('week_start', 'week_end') for k in columns if k.name == c)
                self.pool.append(dict(
                    key=[r[k] for k in KEY[1:6]], start=start, end=end,
                    v={c.name: cell(c, v) for c, v in zip(columns, row) if c.name not in KEY}))
                self.known[row] = len(self.pool)
            out.append(self.known[row])
        return out

    def contents(self):
        return hash(tuple(self.db.look('SELECT * FROM "%s" ORDER BY record_id' % ARCHIVE))) & 0x7FFFFFFF

    def arrived(self, out):
        """What is new in the archive, as another connection sees it."""
        columns = {c.name: [] for c in self.measured}
        for row in self.db.look('SELECT * FROM "%s" ORDER BY record_id' % ARCHIVE):
            r = dict(zip((c.name for c in self.columns), row))
            t = moment(r['timestamp_station'])
            if t in self.read:
                continue
            self.read.add(t)
            for c in self.measured:
                if r[c.name] is not None:
                    columns[c.name].append([t] + cell(c, r[c.name]))
        self.steps.append(dict(op='records', out=out, columns=columns, table=self.table()))

    def insert(self, dates):
        """Records as any exporter may have stored them."""
        if self.writer is None:
            self.writer = self.db.raw()
        for t in dates:
            if t in self.times:
                continue
            self.times.add(t)
            v = {c.name: self.style.value(n, c) for n, c in enumerate(self.measured) if c.name != 'minutes_covered'}
            v.update(minutes_covered=R.choice(self.style.minutes), timestamp_station=t.strftime('%Y-%m-%d %H:%M:%S'),
                     timestamp_utc=t.strftime('%Y-%m-%d %H:%M:%S'), timestamp_weatherlink=models.convert_datetime_to_timestamp(t),
                     summary_year=t.year, summary_month=t.month, summary_day=t.day)
            self.writer.execute('INSERT INTO "%s" (%s) VALUES (%s)' % (
                ARCHIVE, ', '.join('"%s"' % k for k in v), ', '.join('?' * len(v))), list(v.values()))
        self.arrived('ok')

    def export(self, e, dates):
        out = 'ok'
        for t in dates:
            if t in self.times:
                continue
            self.times.add(t)
            r = records.record(R, t, missing=self.style.missing, minutes=R.choice(self.style.minutes))
            try:
                with limit(10):
                    e.export_record(r)
            except Hang:
                out = 'hang'
            except Exception:           # C24 judges that
                pass
        self.arrived(out)

    def connect(self):
        e = exporter.MySQLExporter('user', 'pass', 'weather')
        e.connect()
        self.exporters.append(e)
        return e

    def recalculate(self, e, dates):
        before = self.contents()
        try:
            with limit(60):
                e.recalculate_summaries_for_dates(R.choice((list, list, tuple, set, iter, lambda l: (d for d in l), dict.fromkeys))(dates))
            out = 'ok'
        except Hang:
            out = 'hang'
        except Exception:
            out = 'error'
        self.steps.append(dict(op='recalculate', dates=[[d.year, d.month, d.day] for d in dates], out=out, table=self.table(),
                               archive_before=before, archive_after=self.contents()))

    def end(self):
        for e in self.exporters:
            e.disconnect()
        if self.writer is not None:
            self.writer.close()
        self.db.close()
        TRACE.case(n=sum(s['op'] == 'recalculate' for s in self.steps), pool=self.pool, steps=self.steps)


def some_times(day, count):
    """Times of records in a day: on the edges, close together, anywhere."""
    kind = R.randrange(4)
    if kind == 0:
        out = [0, 1439, R.randrange(1440), R.randrange(1440)]
        R.shuffle(out)
    elif kind == 1:
        step, first = R.choice((1, 5, 10, 15)), R.randrange(1200)
        out = [first + k * step for k in range(count)]
    else:
        out = [R.randrange(1440) for _ in range(count)]
    return [day + datetime.timedelta(minutes=m) for m in out[:count] if m < 1440]


def midnight(*args):
    return datetime.datetime(*args)


CLUSTERS = [
    [midnight(2015, 12, 31), midnight(2016, 1, 1), midnight(2016, 1, 3), midnight(2016, 1, 4), midnight(2015, 12, 27)],
    [midnight(2016, 2, 28), midnight(2016, 2, 29), midnight(2016, 3, 1), midnight(2016, 3, 6), midnight(2016, 3, 7)],
    [midnight(2018, 12, 30), midnight(2018, 12, 31), midnight(2019, 1, 1), midnight(2019, 1, 6), midnight(2019, 1, 7)],
    [midnight(2017, 7, 31), midnight(2017, 8, 1), midnight(2017, 8, 6), midnight(2017, 8, 7), midnight(2017, 7, 30)],
    [midnight(2020, 12, 28), midnight(2021, 1, 3), midnight(2021, 1, 4), midnight(2021, 12, 31), midnight(2022, 1, 2)],
    [midnight(2016, 5, 9), midnight(2016, 5, 10), midnight(2016, 5, 15), midnight(2016, 5, 16), midnight(2016, 6, 1)],
    [midnight(2014, 1, 1), midnight(2014, 12, 31), midnight(2013, 12, 30), midnight(2013, 1, 1), midnight(2014, 12, 28)],
]


def cluster():
    if R.random() < 0.7:
        return list(R.choice(CLUSTERS))
    first = midnight(R.randrange(2001, 2037), R.randrange(1, 13), R.randrange(1, 29))
    return [first + R.choice((0, 1, 2, 6, 7, 30, 31, 365)) * DAY for _ in range(5)]


def ask(day):
    """A date as given: at any time of the day."""
    d = day + datetime.timedelta(minutes=R.choice((0, 0, R.randrange(1440))), seconds=R.choice((0, 59)), microseconds=R.choice((0, 1)))
    return R.choice((d, d, d, d.date(), d.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=R.randrange(-11, 12))))))


def replay(shape):
    h = History()
    days = R.choice(CLUSTERS)
    e = h.connect()
    for step in shape:
        if step[0] == 'records':
            h.insert(some_times(days[step[1] - 1], R.choice((1, 2, 5))))
        else:
            h.recalculate(e, [ask(days[k - 1]) for k in step[1]])
    h.end()


def random_history():
    h = History()
    days = cluster()
    e = h.connect()
    if R.random() < 0.3:
        days += [R.choice(days) + k * DAY for k in (-1, 1)]
    if MODE == 'C26':
        days = days[:3]
    for _ in range(R.randrange(2, 7)):
        x = R.random()
        if x < 0.1:
            e = h.connect()
        elif x < 0.2:
            h.style = Style()
        for _ in range(R.randrange(0, 4)):
            count = R.choice((1, 2, 3, 5, 10, 25) if MODE == 'C26' else (1, 1, 2, 3, 6))
            times = some_times(R.choice(days), count)
            if R.random() < 0.15:
                h.export(e, times)
            else:
                h.insert(times)
        dates = [ask(R.choice(days)) for _ in range(R.randrange(1, 3 if MODE == 'C26' else 6))]
        if R.random() < 0.3:
            dates = [ask(d) for d in days]
            R.shuffle(dates)
        if R.random() < 0.1:
            dates.append(ask(R.choice(days) + R.randrange(-40, 40) * DAY))
        h.recalculate(e, dates)
        if R.random() < 0.2:
            h.recalculate(e, [R.choice(dates)])
    h.end()


with open(sys.argv[2]) as f:
    for n, line in enumerate(f):
        if n % SLICES == SLICE:
            replay(json.loads(line))
for _ in range((3000 if THOROUGH else 200) // SLICES):
    random_history()
TRACE.close()
