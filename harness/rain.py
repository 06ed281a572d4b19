"""rain.py MODE BEHAVIOURS SLICE SLICES OUT: records come in, rain events are detected, and the event table is read by another connection.
MODE is C29 (everything at once) or C30 (in batches, with runs in between)."""
import datetime
import json
import sys

from common import BAD, THOROUGH, Hang, Trace, limit, repo_module, rng
import mysqlserver
import zones

exporter = repo_module('weatherlink.exporter.mysql')
models = repo_module('weatherlink.models')
MODE = sys.argv[1]
TRACE = Trace(sys.argv[-1])
SLICE, SLICES = int(sys.argv[3]), int(sys.argv[4])
R = rng('rain-%s-%s' % (MODE, SLICE))
ARCHIVE, EVENT = 'weather_archive_record', 'weather_rain_event'
MINUTE = datetime.timedelta(minutes=1)


def moment(text):
    if text is None:
        return []
    t = datetime.datetime.strptime(text, '%Y-%m-%d %H:%M:%S')
    return [BAD if t.second or t.microsecond else zones.minute(t)]


def scaled(v, places):
    if v is None:
        return []
    n = mysqlserver.D(repr(v)).scaleb(places)
    return [int(n) if n == int(n) else BAD]


class Station(dict):
    """A record with rain and nothing else."""
    def __init__(self, t, rain, rate):
        dict.__init__(self, timestamp=models.convert_datetime_to_timestamp(t), date=t, minutes_covered=5, rain_amount=rain, rain_rate=rate)
        self.date = t

    def __missing__(self, key):
        return None


class History(object):
    def __init__(self, start=None):
        self.db = mysqlserver.serve(mysqlserver.Database())
        self.steps, self.waiting, self.exporters, self.writer = [], [], [], None
        self.t = start or datetime.datetime(R.randrange(2001, 2037), R.randrange(1, 13), R.randrange(1, 29), R.randrange(24), R.randrange(60))

    def events(self):
        return [dict(id=i, start=(moment(s) or [BAD])[0], end=moment(e), peak=(moment(p) or [BAD])[0], total=(scaled(t, 3) or [BAD])[0],
                     average=scaled(a, 2), high=scaled(h, 2)) for i, s, e, p, t, a, h in self.db.look(
            'SELECT event_id, timestamp_start, timestamp_end, timestamp_rain_rate_high, rain_total, rain_rate_average, rain_rate_high '
            'FROM "%s" ORDER BY event_id' % EVENT)]

    def contents(self):
        return hash(tuple(self.db.look('SELECT * FROM "%s" ORDER BY record_id' % ARCHIVE))) & 0x7FFFFFFF

    def connect(self):
        e = exporter.MySQLExporter('user', 'pass', 'weather')
        e.connect()
        self.exporters.append(e)
        return e

    def record(self, gap, rain, rate, e=None):
        """rain in thousandths or None, rate in hundredths."""
        self.t += gap * MINUTE
        amount = None if rain is None else mysqlserver.D(rain).scaleb(-3)
        speed = None if rate is None else mysqlserver.D(rate).scaleb(-2)
        if e is not None:
            e.export_record(Station(self.t, amount, speed))
        else:
            if self.writer is None:
                self.writer = self.db.raw()
            text = self.t.strftime('%Y-%m-%d %H:%M:%S')
            self.writer.execute(
                'INSERT INTO "%s" (timestamp_weatherlink, timestamp_station, timestamp_utc, minutes_covered, summary_year, summary_month, '
                'summary_day, rain_total, rain_rate_high) VALUES (?,?,?,?,?,?,?,?,?)' % ARCHIVE,
                [models.convert_datetime_to_timestamp(self.t), text, text, 5, self.t.year, self.t.month, self.t.day,
                 None if amount is None else str(amount), None if speed is None else str(speed)])
        self.waiting.append([zones.minute(self.t), [] if rain is None else [rain], rate or 0])

    def arrived(self):
        if self.waiting:
            self.steps.append(dict(op='records', records=self.waiting, events=self.events()))
            self.waiting = []

    def detect(self, e):
        self.arrived()
        before = self.contents()
        counts = [BAD, BAD]
        try:
            with limit(20):
                counts = [int(x) for x in e.find_new_rain_events()]
            out = 'ok'
        except Hang:
            out = 'hang'
        except Exception:
            out = 'error'
        self.steps.append(dict(op='detect', out=out, counts=counts, events=self.events(), archive_before=before, archive_after=self.contents()))
        return out == 'ok'

    def end(self):
        self.arrived()
        for e in self.exporters:
            e.disconnect()
        if self.writer is not None:
            self.writer.close()
        self.db.close()
        TRACE.case(n=sum(s['op'] == 'detect' for s in self.steps), steps=self.steps)


def fill(kind):
    if kind in ('dry', 'null'):
        return (0 if kind == 'dry' else None), R.choice((0, 0, None, 5))
    return R.choice((1, 10, 10, 20, 250, 1999)), R.choice((0, 4, 12, 12, 36, 101, 9999))


def replay(shape):
    h = History()
    e = h.connect()
    for step in shape:
        if step[0] == 'detect':
            if MODE == 'C30' and R.random() < 0.1:
                e = h.connect()
            h.detect(e)
        else:
            gap = step[1] if step[1] <= 180 else R.choice((181, 181, 181, 240, 1440, 1441, 1500, 1620, 1621, 2900, 43210))
            h.record(gap, *fill(step[2]))
    h.detect(e)
    h.end()


def random_history():
    h = History()
    es = [h.connect()]
    style = R.choice(((5,), (60,), (1, 5, 10), (30, 60, 90), (60, 120, 179, 180, 181, 240), (180, 181), (1, 179, 180, 181, 182, 359, 360, 361, 2000), (60, 1440, 1500, 1600, 2881, 4320, 4400)))
    wet = R.choice((0.1, 0.3, 0.5, 0.9, 1))
    kinds = R.choice((('dry',), ('null',), ('dry', 'null')))
    rates = R.choice((None, (10, 20), (0, 1), (333, 333, 334)))
    for _ in range(1 if MODE == 'C29' else R.randrange(2, 8)):
        if R.random() < 0.2:
            es.append(h.connect())
        by = R.choice(es) if R.random() < 0.3 else None
        for _ in range(R.randrange(0, 30 if MODE == 'C29' else 8)):
            rain, rate = fill('rain' if R.random() < wet else R.choice(kinds))
            if rates and rain:
                rate = R.choice(rates)
            h.record(R.choice(style), rain, rate, by)
        e = R.choice(es)
        h.detect(e)
        if R.random() < (0.5 if MODE == 'C29' else 0.2):
            h.detect(R.choice(es))
    h.end()


def long_event(count, every, gap, tail, between):
    """An event of very many records, by the minute: rain each so many minutes, then a tail without."""
    h = History(datetime.datetime(2016, 2, 27, 3, 0))
    e = h.connect()
    for k in range(count):
        h.record(gap, *(fill('rain') if k % every == 0 else fill('dry')))
        if between and k % between == between - 1:
            h.detect(e)
    for _ in range(tail):
        h.record(1, *fill('dry'))
    h.detect(e)
    h.detect(e)
    h.end()


with open(sys.argv[2]) as f:
    for n, line in enumerate(f):
        if n % SLICES == SLICE and (MODE == 'C30' or n // SLICES % 3 == 0 or THOROUGH):
            replay(json.loads(line))
for _ in range((6000 if THOROUGH else 600) // SLICES):
    random_history()
lengths = [(1440, 1), (1441, 1), (1442, 1), (1500, 100), (2881, 170), (3000, 180), (1620, 181)]
every_length = [(count, every, tail) for count, every in lengths for tail in (0, 179, 180, 181)]
for n, (count, every, tail) in enumerate(every_length):
    if n % SLICES == SLICE and (THOROUGH or n // SLICES % 2 == 0 or count < 1443):
        long_event(count, every, 1, tail, None if MODE == 'C29' else R.choice((500, 1000, 1441)))
TRACE.close()
