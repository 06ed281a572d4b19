"""wlkimport.py BEHAVIOURS SLICE SLICES OUT: real importers read database files and real exporters store their records in an emulated
MySQL server, from two clients that may crash; then days are recalculated and rain is detected.  Judges nothing."""
import datetime
import json
import os
import sys

from common import BAD, DIRECTIONS, THOROUGH, Hang, Trace, halves, limit, repo_module, rng
import codec
import mysqlserver
import zones

exporter = repo_module('weatherlink.exporter.mysql')
importer = repo_module('weatherlink.importer')
SLICE, SLICES = int(sys.argv[2]), int(sys.argv[3])
TRACE = Trace(sys.argv[-1])
R = rng('import-%s' % SLICE)
codec.R = R
ARCHIVE, SUMMARY, EVENT = 'weather_archive_record', 'weather_calculated_summary', 'weather_rain_event'
KEY = ('summary_type', 'summary_year', 'summary_month', 'summary_week', 'summary_day')
D = mysqlserver.D
STRIDE = 40
ROOT = os.path.join(os.environ['SCRATCH'], 'files-%d' % SLICE)
os.makedirs(ROOT, exist_ok=True)


def moment(text):
    t = datetime.datetime.strptime(text, '%Y-%m-%d %H:%M:%S')
    return BAD if t.second or t.microsecond else zones.minute(t)


def cell(column, v):
    if v is None:
        return []
    try:
        if column.name.endswith('weatherlink') or column.kind == 'bigint':
            return halves(v)
        if column.kind == 'enum':
            return [DIRECTIONS.index(v)]
        if column.kind == 'datetime':
            return [moment(v)]
        if column.kind == 'date':
            return [zones.minute(datetime.datetime.strptime(v, '%Y-%m-%d')) // 1440]
        if column.kind == 'time':
            h, m, s = v.split(':')
            return [int(h) * 60 + int(m) if s == '00' else BAD]
        n = D(repr(v)).scaleb(column.scale if column.kind == 'decimal' else 0)
        return [int(n) if n == int(n) and abs(n) < 2 ** 31 else BAD]
    except Exception:
        return [BAD]


# ---------------------------------------------------------------------------------------------------------------------
class Weather(object):
    """What the records of a file look like."""
    def __init__(self):
        self.missing = R.choice((0, 0, 0.1, 0.7))
        self.collector = R.choice((0, 0x1000, 0x1000, 0x2000, 0x3000, 0x6000))
        self.wet = R.choice((0, 0.2, 0.6, 1))
        self.base = R.choice((R.randrange(-300, 900), 0))
        self.step = R.choice((1, 5, 10, 30, 60, 120))

    def interval(self, minute):
        b = bytearray(codec.wlk_base())
        put = lambda o, v: b.__setitem__(slice(o, o + 2), codec.le(v & 0xFFFF))
        gone = lambda: R.random() < self.missing
        b[1] = self.step
        put(4, minute)
        t = self.base + R.randrange(-15, 16)
        put(6, 32767 if gone() else t)
        put(8, -32768 if gone() else t + R.randrange(8))
        put(10, 32767 if gone() else t - R.randrange(8))
        put(12, 32767 if gone() else R.randrange(400, 900))
        put(14, 0 if gone() else R.randrange(27000, 31500))
        put(16, 255 if gone() else R.choice((1000, R.randrange(1, 1001), 10 * R.randrange(1, 101))))
        put(18, 255 if gone() else R.choice((1000, R.randrange(1, 1001), 10 * R.randrange(1, 101))))
        clicks = R.choice((1, R.randrange(1, 30), R.randrange(1, 200))) if R.random() < self.wet else 0
        put(20, self.collector + clicks)
        put(22, clicks * R.choice((1, 2, 6)))
        wind = R.choice((0, R.randrange(300), R.randrange(900)))
        put(24, 255 if gone() else wind)
        put(26, 0 if gone() else wind + R.randrange(200))
        put(32, -32768 if gone() else R.randrange(1500))
        put(34, -32768 if gone() else R.randrange(1800))
        b[36] = 255 if gone() else R.randrange(160)
        b[37] = 255 if gone() else R.randrange(160)
        return bytes(b)


def content(days, weather):
    """days: {day: minutes past midnight of its records}; [[day, summary, [record]]]"""
    return [[d, codec.summary_base(), [weather.interval(m) for m in days[d]]] for d in sorted(days)]


def month_file(contents):
    counts, body = [0] * 32, b''
    for d, summary, intervals in contents:
        counts[d] = len(intervals) + 2
        body += summary + b''.join(intervals)
    return codec.header_bytes(counts) + body


def younger(contents):
    """The file as it was some time before."""
    days = contents[:R.randrange(len(contents) + 1)]
    if days:
        d, summary, intervals = days[-1]
        days = days[:-1] + [[d, codec.summary_base(), intervals[:R.randrange(len(intervals) + 1)]]]
    return days


class Client(object):
    def __init__(self, db):
        self.exporter = exporter.MySQLExporter('user', 'pass', 'weather')
        self.exporter.connect()
        self.session, self.queue = db.open[-1], []


class History(object):
    def __init__(self, files):
        """files: [((year, month), bytes)]"""
        self.db = mysqlserver.serve(mysqlserver.Database())
        self.files, self.steps, self.clients = files, [], {}
        self.pool, self.summaries, self.known = [], [], {}
        self.dates = set()

    def path(self, n):
        return os.path.join(ROOT, 'station-%04d-%02d.wlk' % self.files[n][0])

    def client(self, who):
        if who not in self.clients:
            self.clients[who] = Client(self.db)
        return self.clients[who]

    def read(self, table, order, pool, shown):
        columns = self.db.tables[table][0]
        out = []
        for row in self.db.look('SELECT * FROM "%s" ORDER BY %s' % (table, order)):
            if (table, row) not in self.known:
                pool.append(shown(columns, row))
                self.known[table, row] = len(pool)
            out.append(self.known[table, row])
        return out

    def summary(self, columns, row):
        r = dict(zip((c.name for c in columns), row))
        span = {c.name: [] if r[c.name] is None else cell(c, r[c.name]) for c in columns if c.name in ('week_start', 'week_end')}
        return dict(key=[r[k] for k in KEY], start=span['week_start'], end=span['week_end'],
                    v={c.name: cell(c, v) for c, v in zip(columns, row) if c.name not in KEY + ('summary_id', 'week_start', 'week_end')})

    def note(self, **kw):
        kw['table'] = self.read(ARCHIVE, 'timestamp_weatherlink', self.pool, lambda columns, row: {
            c.name: cell(c, v) for c, v in zip(columns, row) if c.name != 'record_id'})
        self.steps.append(kw)

    def open(self, who, n):
        c = self.client(who)
        if c.queue:
            return
        with open(self.path(n), 'wb') as f:     # its contents at this time: the file of a month grows
            f.write(self.files[n][1])
        try:
            with limit(10):
                i = importer.Importer(self.path(n))
                i.import_data()
                c.queue = list(i.records)
            out = 'ok'
        except Hang:
            out = 'hang'
        except Exception:
            out = 'error'
        self.note(do='open', who=who, file=n + 1, out=out, count=len(c.queue))

    def put(self, who, count=None):
        c = self.client(who)
        part = c.queue[:count]
        c.queue = c.queue[len(part):]
        outs = []
        for r in part:
            self.dates.add(r.date)
            try:
                with limit(10):
                    c.exporter.export_record(r)
                outs.append('ok')
            except Hang:
                outs.append('hang')
            except Exception:
                outs.append('error')
        if part:
            self.note(do='put', who=who, outs=outs)

    def crash(self, who):
        c = self.clients.pop(who, None)
        if c is not None:
            c.session.die()
            self.note(do='crash', who=who)

    def recalculate(self, who, dates):
        try:
            with limit(60):
                self.client(who).exporter.recalculate_summaries_for_dates(list(dates))
            out = 'ok'
        except Hang:
            out = 'hang'
        except Exception:
            out = 'error'
        self.note(do='recalculate', out=out, dates=[[d.year, d.month, d.day] for d in dates],
                  summaries=self.read(SUMMARY, 'summary_id', self.summaries, self.summary))

    def detect(self, who):
        counts = [BAD, BAD]
        try:
            with limit(20):
                counts = [int(x) for x in self.client(who).exporter.find_new_rain_events()]
            out = 'ok'
        except Hang:
            out = 'hang'
        except Exception:
            out = 'error'
        columns = {c.name: c for c in self.db.tables[EVENT][0]}
        names = dict(start='timestamp_start', end='timestamp_end', peak='timestamp_rain_rate_high', total='rain_total', average='rain_rate_average',
                     high='rain_rate_high')
        events = []
        for row in self.db.look('SELECT %s FROM "%s" ORDER BY event_id' % (', '.join('"%s"' % n for n in names.values()), EVENT)):
            e = {k: cell(columns[names[k]], v) for k, v in zip(names, row)}
            for k in ('start', 'peak', 'total'):
                e[k] = e[k][0] if e[k] else BAD
            events.append(e)
        self.note(do='detect', out=out, counts=counts, events=events)

    def step(self, step):
        what, who = step[:2]
        if what == 'open':
            self.open(who, step[2] - 1)
        elif what == 'put':
            self.put(who, 1)
        else:
            self.crash(who)

    def some_dates(self):
        return sorted(self.dates)

    def end(self):
        order = list(range(len(self.files)))
        R.shuffle(order)
        for who in sorted(self.clients):
            self.put(who)
        for n in order:
            who = R.choice((1, 2))
            self.open(who, n)
            self.put(who)
        if R.random() < 0.5:
            self.recalculate(1, self.some_dates())
            self.detect(2)
        else:
            self.detect(1)
            self.recalculate(2, self.some_dates())
        for c in self.clients.values():
            c.exporter.disconnect()
        self.db.close()
        for name in os.listdir(ROOT):
            os.unlink(os.path.join(ROOT, name))
        TRACE.case(n=sum(s['do'] != 'crash' for s in self.steps), files=[dict(ym=list(ym), b=list(b)) for ym, b in self.files], steps=self.steps,
                   pool=self.pool, summaries=self.summaries)


def month_after(ym):
    return (ym[0] + ym[1] // 12, ym[1] % 12 + 1)


def last_day(ym):
    y, m = month_after(ym)
    return (datetime.date(y, m, 1) - datetime.timedelta(1)).day


def some_month():
    return R.choice(((2016, 2), (2015, 12), (2016, 12), (2007, 3), (2016, 11), (2036, 10), (2020, 12), (R.randrange(2001, 2037), R.randrange(1, 13))))


def two_files():
    """Two months, three records each; the first ends with the midnight the second begins with."""
    ym = some_month()
    w = Weather()
    d = last_day(ym)
    first = {d: [R.randrange(700), R.randrange(700, 1440), 1440]} if R.random() < 0.5 else {R.randrange(1, d): [R.randrange(1440)], d: [1439, 1440]}
    second = {1: [0, R.randrange(1, 1440)], R.randrange(2, 28): [R.randrange(1440)]}
    if R.random() < 0.3:    # or twice the same file, which has grown
        first = content(dict(first, **{d + 1: [R.randrange(1440)]}) if d + 1 <= last_day(ym) else first, w)
        days = list(first)
        days[-1] = days[-1][:2] + [days[-1][2][:-1]]
        return [(ym, month_file(days)), (ym, month_file(first))]
    return [(ym, month_file(content(first, w))), (month_after(ym), month_file(content(second, w if R.random() < 0.7 else Weather())))]


def some_days(ym, w):
    days = {}
    n = last_day(ym)
    few = sorted(R.sample(range(1, n + 1), R.randrange(1, 5))) if R.random() < 0.6 else [k for k in range(R.randrange(1, n), n + 1)][:R.randrange(1, 6)]
    for d in few:
        kind = R.random()
        if kind < 0.1:
            days[d] = []            # a summary only
        elif kind < 0.5:
            days[d] = sorted(R.sample(range(1, 1441), R.randrange(1, 6)))
        else:
            first = R.choice((0, w.step, R.randrange(1200)))
            days[d] = [m for m in range(first, first + w.step * R.randrange(2, 12), w.step) if m <= 1440]
        if d + 1 in days or d > 1 and d - 1 in days and 1440 in days[d - 1]:
            days[d] = [m for m in days[d] if m]
    return days


with open(sys.argv[1]) as f:
    for n, line in enumerate(f):
        if n % SLICES == SLICE and (THOROUGH or n // SLICES % STRIDE == 0):
            h = History(two_files())
            for step in json.loads(line):
                h.step(step)
            h.end()


def random_history():
    ym, files = some_month(), []
    w = Weather()
    for _ in range(R.randrange(1, 4)):
        days = content(some_days(ym, w), w)
        if R.random() < 0.4:
            files.append((ym, month_file(younger(days))))
        files.append((ym, month_file(days)))
        ym = month_after(ym)
        if R.random() < 0.3:
            w = Weather()
    h = History(files)
    for _ in range(R.randrange(0, 5)):
        who, x = R.choice((1, 2)), R.random()
        if x < 0.4:
            h.open(who, R.randrange(len(files)))
            h.put(who, R.choice((None, 1, R.randrange(1, 12))))
        elif x < 0.7:
            h.put(who, R.choice((None, 1, R.randrange(1, 12))))
        elif x < 0.85:
            h.crash(who)
        elif h.dates:
            h.recalculate(who, R.sample(sorted(h.dates), min(len(h.dates), R.randrange(1, 4))))
    h.end()


for _ in range((2000 if THOROUGH else 98) // SLICES):
    random_history()
TRACE.close()
