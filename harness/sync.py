"""sync.py BEHAVIOURS SLICE SLICES OUT: real downloaders and exporters keep an archive table in step with an emulated web service, while
downloads and statements fail, connections go and clients crash.  Each record is also stored once by itself, in a database of its own,
to tell later whether a stored row is complete ("alone").  Judges nothing."""
import datetime
import io
import json
import sys

from common import BAD, THOROUGH, Hang, Trace, halves, limit, odirection, repo_module, rng
import codec
import mysqlserver
import transport
import zones
from transport import answer

exporter = repo_module('weatherlink.exporter.mysql')
downloader = repo_module('weatherlink.downloader')
models = repo_module('weatherlink.models')
transport.install()
SLICE, SLICES = int(sys.argv[2]), int(sys.argv[3])
TRACE = Trace(sys.argv[-1])
R = rng('sync-%s' % SLICE)
codec.R = R
TABLE = 'weather_archive_record'
D = mysqlserver.D
VERSIONS = {}
HEADER = 'ConsoleVer=Apr 16 2008\nModel=16\nArchiveInt=%d\nRecords=%d\nMaxRecords=2560'


def put16(b, o, v):
    b[o:o + 2] = codec.le(v & 0xFFFF)


def content(t, missing):
    """A record of the service, 52 bytes, with plausible weather."""
    b = bytearray(codec.download_base())
    put16(b, 0, t.day + 32 * t.month + 512 * (t.year - 2000))
    put16(b, 2, t.hour * 100 + t.minute)
    gone = lambda: R.random() < missing
    temperature = R.choice((R.randrange(-300, 1100), R.randrange(-10, 11), 0))
    put16(b, 4, 32767 if gone() else temperature)
    put16(b, 6, -32768 if gone() else temperature + R.randrange(20))
    put16(b, 8, 32767 if gone() else temperature - R.randrange(20))
    rain = R.choice((0, 0, R.randrange(1, 40)))
    put16(b, 10, rain)
    put16(b, 12, rain * R.choice((1, 2, 4)))
    put16(b, 14, 0 if gone() else R.randrange(27000, 31500))
    put16(b, 16, 32767 if gone() else R.randrange(1500))
    put16(b, 20, 32767 if gone() else R.randrange(400, 900))
    b[22] = 255 if gone() else R.randrange(1, 101)
    b[23] = 255 if gone() else R.randrange(1, 101)
    b[24] = 255 if gone() else R.randrange(60)
    b[25] = 0 if gone() else R.randrange(90)
    b[28] = 255 if gone() else R.randrange(160)
    b[29] = R.randrange(256)
    put16(b, 30, 32767 if gone() else R.randrange(1800))
    b[32] = 255 if gone() else R.randrange(160)
    return bytes(b)


def cell(column, v):
    if v is None:
        return []
    try:
        if column.name.endswith('weatherlink'):
            return halves(v)
        if column.kind == 'enum':
            return odirection(v)
        if column.kind == 'datetime':
            t = datetime.datetime.strptime(v, '%Y-%m-%d %H:%M:%S')
            return [zones.minute(t) if not t.second else BAD]
        n = D(repr(v)).scaleb(column.scale if column.kind == 'decimal' else 0)
        return [int(n) if n == int(n) and abs(n) < 2 ** 31 else BAD]
    except Exception:
        return [BAD]


def rows(db):
    """[[stamp, version]] as another connection sees them, in the order of time."""
    out = []
    names = [c.name for c in db.tables[TABLE][0]][1:]
    k = names.index('timestamp_weatherlink')
    for row in db.look('SELECT %s FROM "%s"' % (', '.join('"%s"' % n for n in names), TABLE)):
        out.append([row[k], VERSIONS.setdefault(row, len(VERSIONS))])
    return [[halves(s), v] for s, v in sorted(out)]


def alone(b, interval, place={}):
    """The version of the row a record makes when it is stored by itself."""
    if not place:
        before = mysqlserver.Session.current
        place['db'] = mysqlserver.serve(mysqlserver.Database())
        place['e'] = exporter.MySQLExporter('user', 'pass', 'weather')
        place['e'].connect()
        place['raw'] = place['db'].raw()
        mysqlserver.Session.current = before
    try:
        place['e'].export_record(models.ArchiveIntervalRecord.load_from_download(io.BytesIO(b), interval))
    except Exception:
        pass
    r = rows(place['db'])
    place['raw'].execute('DELETE FROM "%s"' % TABLE)
    return r[0][1] if len(r) == 1 else BAD


class Client(object):
    def __init__(self):
        self.exporter = exporter.MySQLExporter('user', 'pass', 'weather')
        self.downloader = downloader.Downloader('user', 'pass', 'token')
        self.conn, self.at, self.newest, self.queue = 'none', 'idle', None, []


class History(object):
    def __init__(self, start=None, step=None, interval=None, missing=0.05):
        self.db = mysqlserver.serve(mysqlserver.Database())
        self.interval = interval or R.choice((1, 5, 10, 15, 30, 60, 120))
        self.t = start or datetime.datetime(R.choice((2007, 2016, 2036, 2062, R.randrange(2007, 2063))), R.randrange(1, 13), R.randrange(1, 29),
                                            R.randrange(24), R.randrange(60))
        self.origin, self.brought = self.t, set()
        self.gap, self.missing = step, missing
        self.service, self.clients, self.steps, self.sessions = [], {}, [], {}

    def client(self, who):
        return self.clients.setdefault(who, Client())

    def note(self, **kw):
        kw['after'] = rows(self.db)
        self.steps.append(kw)

    def arrive(self):
        gap = self.gap if self.gap is not None else R.choice((1, 5, 30, 60, 61, 720, 1440, 1441, 44640, 525600))
        self.t += datetime.timedelta(minutes=gap)
        if self.t.year > 2063:      # no time stamps beyond
            return
        b = content(self.t, self.missing)
        self.service.append((models.convert_datetime_to_timestamp(self.t), b))
        self.note(do='arrive', stamp=[b[0] + 256 * b[1], b[2] + 256 * b[3]], b=list(b), alone=alone(b, self.interval))

    def bring(self, who, minutes):
        """An older record, from a file say, is stored by another way."""
        t = self.origin - datetime.timedelta(minutes=minutes)
        stamp = models.convert_datetime_to_timestamp(t)
        if stamp in self.brought:
            return
        self.brought.add(stamp)
        b = content(t, self.missing)
        c = self.client(who)
        if c.conn != 'up':
            c.exporter.connect()
            c.conn, self.sessions[who] = 'up', self.db.open[-1]
        version = alone(b, self.interval)
        try:
            c.exporter.export_record(models.ArchiveIntervalRecord.load_from_download(io.BytesIO(b), self.interval))
            out = 'ok'
        except Exception:
            out = 'error'
        self.note(do='bring', who=who, minutes=minutes, stamp=halves(stamp), alone=version, out=out)

    def faults(self, plan):
        fired = []

        def fault(n, statement):
            kind = plan.get(n)
            if kind:
                fired.append(kind)
            return kind
        self.db.fault, self.db.count = (fault if plan else None), 0
        return fired

    def query(self, who, fault=''):
        c = self.client(who)
        if c.conn != 'up':
            if c.conn == 'lost' and R.random() < 0.5:
                c.exporter.disconnect()
            c.exporter.connect()
            c.conn, self.sessions[who] = 'up', self.db.open[-1]
        fired = self.faults({1: fault} if fault else {})
        newest = []
        try:
            with limit(10):
                c.newest = c.exporter.get_newest_timestamp()
                newest = [] if c.newest is None else [halves(int(c.newest))]
            out, c.at = 'ok', 'asked'
        except Hang:
            out = 'hang'
        except Exception:
            out = 'error'
        self.db.fault = None
        if out != 'ok':
            c.at = 'idle'
        if fired and fired[0] == 'drop':
            c.conn = 'lost'
        self.note(do='query', who=who, fault=fault if fired else '', out=out, newest=newest)

    def fetch(self, who, fault=''):
        c = self.client(who)
        start = c.newest or 0
        if c.newest is None and R.random() < 0.3:
            start = datetime.datetime(2000, 1, 1)
        elif c.newest is not None and R.random() < 0.3:
            try:
                start = models.convert_timestamp_to_datetime(c.newest)
            except Exception:
                pass
        asked = []
        failure = transport.requests.exceptions.ConnectionError('gone')
        cut = []

        def send(adapter, request, **kwargs):
            u, method, parameters = transport.split(request)
            p = dict(parameters)
            stamp = int(p['timestamp'])
            asked.append([p['action'], halves(stamp)])
            after = [b for s, b in self.service if s > stamp]
            if fault == 'short':
                after = after[:1]
            if p['action'] == 'headers':
                a = answer(200, {'Content-Type': 'text/html'}, (HEADER % (self.interval, len(after))).encode())
                if fault == 'headers':
                    a = R.choice((failure, answer(200, {'Content-Type': 'application/json'}, a['body']),
                                  answer(200, {'Content-Type': 'text/html'}, a['body'].replace(b'Model=16', b'Model=15')),
                                  answer(200, {'Content-Type': 'text/html'}, b''), answer(200, {}, a['body'])))
            else:
                body = b''.join(after)
                h = {'Content-Type': 'application/octet-stream', 'Content-Transfer-Encoding': 'binary'}
                a = answer(200, h, body)
                if fault == 'data':
                    a = R.choice((failure, answer(200, dict(h, **{'Content-Type': 'text/html'}), body),
                                  answer(200, dict(h, **{'Content-Transfer-Encoding': 'base64'}), body),
                                  answer(200, dict(h, **{'Content-Encoding': 'gzip'}), body)))
                elif fault == 'cut' and body:
                    cut.append(1)
                    a = answer(200, h, body[:len(body) - R.choice((1, 52, R.randrange(1, len(body) + 1)))])
            if isinstance(a, Exception):
                raise a
            raw = transport.urllib3.HTTPResponse(body=io.BytesIO(a['body']), headers=a['headers'], status=a['status'], reason='OK',
                                                 preload_content=False)
            return adapter.build_response(request, raw)

        transport.requests.adapters.HTTPAdapter.send = send
        got = []
        try:
            with limit(10):
                c.downloader.download(start)
                c.queue = list(c.downloader.records)
                got = [halves(int(r['timestamp'])) for r in c.queue]
            out = 'ok'
        except Hang:
            out = 'hang'
        except Exception:
            out, c.queue = 'error', []
        transport.requests.adapters.HTTPAdapter.send = transport.send
        c.at = 'got' if c.queue else 'idle'
        self.note(do='fetch', who=who, fault='' if fault == 'cut' and not cut else fault, out=out, asked=asked, got=got)

    def store(self, who, fault=''):
        c = self.client(who)
        record = c.queue.pop(0)
        fired = self.faults({int(fault[-1]): fault[:-1]} if fault else {})
        try:
            with limit(10):
                c.exporter.export_record(record)
            out = 'ok'
        except Hang:
            out = 'hang'
        except Exception:
            out = 'error'
        self.db.fault = None
        if fired and fired[0] in ('drop', 'ack'):
            c.conn = 'lost'
        if out != 'ok':
            c.queue = []
        c.at = 'got' if c.queue else 'idle'
        self.note(do='store', who=who, fault=fault if fired else '', out=out, stamp=halves(int(record['timestamp'])))

    def crash(self, who):
        c = self.clients.pop(who, None)
        if c is not None and c.conn == 'up':
            # the operating system closes its connections
            self.sessions[who].die()
        self.note(do='crash', who=who)

    def do(self, step):
        what, who, fault = (list(step) + ['', ''])[:3]
        if what == 'arrive':
            return self.arrive()
        c = self.client(who)
        if what == 'query' and c.at == 'idle':
            self.query(who, fault)
        elif what == 'fetch' and c.at == 'asked':
            self.fetch(who, fault)
        elif what == 'store' and c.at == 'got':
            self.store(who, fault)
        elif what == 'crash':
            self.crash(who)

    def session(self, who, plan=()):
        """A whole session, or until something fails; plan: {number of the step: fault}"""
        plan = dict(plan)
        c = self.client(who)
        while c.at != 'idle':
            self.do([('fetch' if c.at == 'asked' else 'store'), who])
        n = 0
        while True:
            what = {'idle': 'query', 'asked': 'fetch', 'got': 'store'}[c.at]
            self.do([what, who, plan.get(n, '')])
            n += 1
            if c.at == 'idle':
                break

    def end(self):
        for who in sorted(set(self.clients) | {1}):
            self.session(who)
        self.session(R.choice((1, 2)))
        columns = self.db.tables[TABLE][0]
        table = [{c.name: cell(c, v) for c, v in zip(columns, row)} for row in
                 self.db.look('SELECT * FROM "%s" ORDER BY timestamp_weatherlink' % TABLE)]
        for c in self.clients.values():
            c.exporter.disconnect()
        self.db.close()
        TRACE.case(n=sum(s['do'] in ('query', 'fetch', 'store') for s in self.steps), interval=self.interval, steps=self.steps, table=table)


with open(sys.argv[1]) as f:
    for n, line in enumerate(f):
        if n % SLICES == SLICE and (THOROUGH or n // SLICES % 24 == 0):
            h = History(missing=R.choice((0, 0.1, 0.8)))
            if R.random() < 0.3:        # with something there before
                for _ in range(R.randrange(1, 3)):
                    h.arrive()
                h.session(1)
            for step in json.loads(line):
                h.do(step)
            h.end()

QUERY, FETCH, STORE = ('error', 'drop'), ('headers', 'data', 'cut', 'short'), ('error1', 'drop1', 'ack1', 'error2', 'deadlock2', 'drop2', 'ack2')


def random_history():
    h = History(start=R.choice((None, None, datetime.datetime(2016, 12, 31, 22), datetime.datetime(2016, 2, 28, 23, 55), datetime.datetime(2063, 12, 28))),
                step=R.choice((None, 1, 5, 60, 1440)))
    brings = R.random() < 0.5
    for _ in range(R.randrange(1, 5)):
        for _ in range(R.randrange(0, 6)):
            h.arrive()
        for _ in range(R.randrange(1, 4)):
            who = R.choice((1, 1, 2))
            x = R.random()
            if brings and R.random() < 0.5:
                h.bring(who, R.choice((0, 1, 60, 1440, 1441, 50000, 525600, R.randrange(2000000))))
            elif x < 0.15:
                h.crash(who)
            elif x < 0.3:
                c = h.client(who)
                h.do([{'idle': 'query', 'asked': 'fetch', 'got': 'store'}[c.at], who])
            else:
                plan = {}
                if R.random() < 0.7:
                    k = R.randrange(0, 7)
                    plan[k] = R.choice(QUERY if k == 0 else FETCH if k == 1 else STORE)
                h.session(who, plan)
    h.end()


for _ in range((2400 if THOROUGH else 240) // SLICES):
    random_history()
for n in (60, 200) if THOROUGH else (40,):      # long ones
    h = History(step=5, missing=0.02)
    for _ in range(n):
        h.arrive()
    for k in (5, 3, 17):
        h.session(R.choice((1, 2)), {k: R.choice(STORE)})
    h.end()
TRACE.close()
