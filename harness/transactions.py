"""transactions.py BEHAVIOURS SLICE SLICES OUT: operations of real exporters while statements fail or the connection goes at chosen points.
What each operation would have done from the same contents ("reference") is found by running it on a copy of the database, where also
the contents that others see are noted after every statement.  Judges nothing."""
import datetime
import json
import os
import shutil
import sys

from common import THOROUGH, Hang, Trace, limit, repo_module, rng
import mysqlserver

import mysql.connector.connection
import mysql.connector.errors

# closing a connection can be made to fail, after the fact
CLOSE = {'fault': None, 'calls': 0}
really_close = mysql.connector.connection.MySQLConnection.close


def close(self):
    CLOSE['calls'] += 1
    really_close(self)
    if CLOSE['fault']:
        raise CLOSE['fault']


mysql.connector.connection.MySQLConnection.close = close
mysql.connector.connection.MySQLConnection.disconnect = close

exporter = repo_module('weatherlink.exporter.mysql')
models = repo_module('weatherlink.models')
SLICE, SLICES = int(sys.argv[2]), int(sys.argv[3])
TRACE = Trace(sys.argv[-1])
R = rng('transactions-%s' % SLICE)
D = mysqlserver.D
KEYS = {'weather_archive_record': ('record_id', ('timestamp_weatherlink',)),
        'weather_calculated_summary': ('summary_id', ('summary_type', 'summary_year', 'summary_month', 'summary_week', 'summary_day')),
        'weather_rain_event': ('event_id', ('timestamp_start',))}
NAMES, VERSIONS = {}, {}
ORIGIN = datetime.datetime(2016, 2, 27, 22, 0)


class Record(dict):
    def __init__(self, hours, **values):
        date = values.pop('date', ORIGIN + datetime.timedelta(hours=hours))
        dict.__init__(self, timestamp=models.convert_datetime_to_timestamp(date), date=date, minutes_covered=60, **values)
        self.date = date

    def __missing__(self, key):
        return None


def record(hours, **more):
    wet = hours % 11 in (1, 2, 7)
    values = dict(temperature_outside=D(300 + hours * 7 % 50) / 10, temperature_outside_low=D(290 + hours % 13) / 10,
                  temperature_outside_high=D(360 + hours * 3 % 29) / 10, humidity_outside=40 + hours % 30, wind_speed=D(hours % 9),
                  wind_speed_high=D(hours % 9 + hours % 4), wind_direction_prevailing=list(models.WindDirection)[hours % 5],
                  wind_direction_speed_high=list(models.WindDirection)[hours % 7], barometric_pressure=D(29000 + hours) / 1000,
                  rain_amount=D(hours % 5 + 1) / 100 if wet else D(0), rain_rate=D(hours % 6 + 1) / 10 if wet else D(0))
    values.update(more)
    return Record(hours, **values)


class View(object):
    """What others see in a database, as [table, key, version] rows."""
    def __init__(self, db):
        self.db, self.stamp, self.value = db, None, None

    def __call__(self):
        stamp = self.db.look('PRAGMA data_version')[0][0]
        if self.stamp == stamp and self.value is not None:
            return self.value
        out = []
        for t, (table, (number, key)) in enumerate(sorted(KEYS.items())):
            names = [c.name for c in self.db.tables[table][0]]
            others = [n for n in names if n != number]
            for row in self.db.look('SELECT %s FROM "%s"' % (', '.join('"%s"' % n for n in others), table)):
                k = (t,) + tuple(row[others.index(x)] for x in key)
                out.append((NAMES.setdefault(k, len(NAMES)), VERSIONS.setdefault((t,) + row, len(VERSIONS))))
        self.stamp, self.value = stamp, tuple(sorted(out))
        return self.value


class Base(object):
    """A database with records, to copy."""
    def __init__(self, hours):
        self.db = mysqlserver.serve(mysqlserver.Database())
        e = exporter.MySQLExporter('user', 'pass', 'weather')
        e.connect()
        for h in hours:
            e.export_record(record(h))
        e.disconnect()


def copy(db):
    """A database with the same committed contents."""
    out = mysqlserver.Database()
    for suffix in ('', '-wal'):
        if os.path.exists(db.path + suffix):
            shutil.copy(db.path + suffix, out.path + suffix)
        elif os.path.exists(out.path + suffix):
            os.remove(out.path + suffix)
    return out


def dates(*hours):
    return [ORIGIN + datetime.timedelta(hours=h) for h in hours]


def perform(e, what):
    name, _, n = what.partition(':')
    n = int(n or 0)
    if name == 'export':
        return e.export_record(record(200 + n))
    if name == 'bad':
        return e.export_record(record(199, barometric_pressure=D(10) ** 9))
    if name == 'broken':
        return e.export_record(Record(199, date=None, rain_amount=D(1)))
    if name == 'recalculate':
        return e.recalculate_summaries_for_dates([dates(3), dates(1, 50, 3), dates(200), []][n])
    if name == 'detect':
        return list(e.find_new_rain_events())
    return e.get_newest_timestamp()


def dates(*hours):
    return [ORIGIN + datetime.timedelta(hours=h) for h in hours]


def attempt(e, what):
    """[outcome, result], and the exception."""
    try:
        with limit(20):
            return ['ok', json.dumps(perform(e, what))], None
    except Hang:
        return ['hang', ''], None
    except Exception as x:
        return ['error', ''], x


POOL = {}


def contents_id(rows):
    return POOL.setdefault(rows, len(POOL))


def difference(a, b):
    return [list(x) for x in sorted(set(a) ^ set(b))]


REFERENCES = {}


class Reference(object):
    """What an operation does from the contents db has, on a copy."""
    def __init__(self, db, what):
        self.db = mysqlserver.serve(copy(db))
        view = View(self.db)
        last = [view()]
        self.trail = [[0, contents_id(last[0]), []]]
        e = exporter.MySQLExporter('user', 'pass', 'weather')
        e.connect()

        def note(n):
            now = view()
            if now != last[0]:
                self.trail.append([n, contents_id(now), difference(last[0], now)])
                last[0] = now

        self.db.fault, self.db.count = lambda n, statement: note(n - 1), 0
        del self.db.log[:]
        self.out, _ = attempt(e, what)
        self.db.fault = None
        note(self.db.count)
        self.log = [s.split(None, 1)[0].strip(';').upper() for s in self.db.log]
        e.disconnect()
        mysqlserver.serve(db)
        self.db.close()


def position(log, place):
    """The number of a statement of that kind, or None."""
    if place == 'first':
        return 1 if log else None
    kinds = dict(read=('SELECT',), write=('INSERT', 'UPDATE', 'DELETE', 'REPLACE'), commit=('COMMIT',))[place]
    found = [n + 1 for n, word in enumerate(log) if word in kinds]
    return R.choice(found) if found else None


class BodyError(Exception):
    pass


class Stop(BaseException):
    pass


class History(object):
    def __init__(self, base):
        self.db = mysqlserver.serve(copy(base.db))
        self.view = View(self.db)
        self.steps, self.es, self.exports = [], {}, 0

    def e(self, who):
        if who not in self.es:
            self.es[who] = exporter.MySQLExporter('user', 'pass', 'weather')
            self.connect(who)
        return self.es[who]

    def note(self, **kw):
        kw.update(sessions=len(self.db.open), after=contents_id(self.view()))
        self.steps.append(kw)

    def new(self):
        self.exports += 1
        return 'export:%d' % self.exports

    def connect(self, who=1, refused=False):
        e = self.es.get(who) or self.es.setdefault(who, exporter.MySQLExporter('user', 'pass', 'weather'))
        self.db.refuse = refused
        try:
            e.connect()
            out = 'ok'
        except Exception:
            out = 'error'
        self.db.refuse = False
        self.note(do='connect', who=who, refused=refused, out=out)

    def operate(self, what, plan=(), who=1):
        """plan: {number of a statement or 'rollback': kind of fault}"""
        e = self.e(who)
        contents = self.view()
        key = (what, contents)
        if key not in REFERENCES:
            REFERENCES[key] = Reference(self.db, what)
        ref = REFERENCES[key]
        plan = dict(plan(ref) if callable(plan) else plan)
        fired = []

        def fault(n, statement):
            kind = plan.get(n)
            if kind is None and plan.get('rollback') and statement.lstrip().upper().startswith('ROLLBACK'):
                kind = plan['rollback']
            if kind:
                fired.append([kind, n])
            return kind

        self.db.fault, self.db.count = fault, 0
        (out, result), x = attempt(e, what)
        self.db.fault = None
        self.note(do='op', who=who, what=what, works=what.split(':')[0] in ('recalculate', 'detect', 'newest'), ref=dict(out=ref.out, trail=ref.trail), fired=fired, out=out, result=result)
        return x

    def lose(self, who=1):
        e = self.e(who)
        dead = [s for s in self.db.open]
        if len(dead) == 1 or who == 1:
            dead[0].die()
            self.note(do='lose', who=who)

    def close_fault(self, kind):
        CLOSE['calls'] = 0
        CLOSE['fault'] = {'': None, 'close': mysql.connector.errors.OperationalError('cannot close'), 'system': OSError(5, 'cannot close'),
                          'other': RuntimeError('cannot close')}[kind]

    def disconnect(self, who=1, fault=''):
        e = self.e(who)
        self.close_fault(fault)
        try:
            e.disconnect()
            out = 'ok'
        except Exception:
            out = 'error'
        faulty = bool(CLOSE['fault']) and CLOSE['calls'] > 0
        self.close_fault('')
        self.note(do='disconnect', who=who, faulty=faulty, out=out)

    def block(self, who, body, raised, fault):
        """with exporter: body"""
        e = self.es.get(who) or self.es.setdefault(who, exporter.MySQLExporter('user', 'pass', 'weather'))
        x, done = None, []
        try:
            with e:
                self.note(do='connect', who=who, refused=False, out='ok')
                for what, plan in body:
                    x = self.operate(what, plan, who)
                    if x is not None and raised == 'fail':
                        break
                else:
                    x = dict(BodyError=BodyError(), Stop=Stop()).get(raised)
                self.close_fault(fault)
                if x is not None:
                    raise x
            out = 'ok'
        except Stop as y:
            out = 'body' if y is x else 'other'
        except Exception as y:
            out = 'body' if y is x else 'close' if y is CLOSE['fault'] else 'other'
        faulty = bool(CLOSE['fault']) and CLOSE['calls'] > 0
        self.close_fault('')
        self.note(do='leave', who=who, raised=x is not None, faulty=faulty, out=out)

    def end(self):
        for e in self.es.values():
            try:
                e.disconnect()
            except Exception:
                pass
        self.db.close()
        TRACE.case(n=sum(len(s.get('fired', [0])) for s in self.steps), start=self.start, steps=self.steps)


def history(base):
    h = History(base)
    h.start = contents_id(h.view())
    return h


BASES = [Base(list(range(0, 12)) + [48, 50, 51, 53]), Base(())]
OPS = {'export': 'export', 'bad': 'bad', 'recalculate': 'recalculate:0', 'detect': 'detect', 'newest': 'newest'}


def name(h, op):
    return h.new() if op == 'export' else OPS[op]


def standing(h, who=1):
    """Whether the exporter's last step left it connected."""
    c = 'none'
    for s in h.steps:
        if s['who'] != who:
            continue
        if s['do'] == 'connect':
            c = 'up' if s['out'] == 'ok' else c
        elif s['do'] in ('disconnect', 'leave'):
            c = 'none'
        elif s['do'] == 'lose' or any(f[0] in ('drop', 'ack') for f in s.get('fired', ())):
            c = 'lost'
    return c


def shape(steps, base):
    h = history(base)
    last = None
    for s in steps:
        if s[0] == 'op':
            last = name(h, s[1])
            if s[2]:
                def plan(ref, kind=s[2], place=s[3]):
                    if place == 'rollback':
                        n = position(ref.log, R.choice(('read', 'write', 'commit')))
                        return {n: kind, 'rollback': 'drop'} if n else {}
                    n = position(ref.log, place)
                    return {n: kind} if n else {}
                h.operate(last, plan)
            else:
                h.operate(last)
        elif s[0] == 'lose':
            if standing(h) == 'up' or 1 not in h.es:
                h.lose()
        elif s[0] in ('connect', 'refused'):
            if standing(h) != 'up':
                h.connect(1, s[0] == 'refused')
        elif s[0] == 'other':
            h.operate(name(h, s[1]), (), 2)
        elif s[0] == 'disconnect':
            h.disconnect(1, s[1] and R.choice(('close', 'system', 'other')))
        elif s[0] == 'with':
            if standing(h) == 'up':
                h.disconnect()
            fault = s[2] and R.choice(('close', 'system', 'other'))
            body = [(name(h, R.choice(('export', 'newest', 'detect'))), ())] * (R.random() < 0.5)
            if s[1] == 'fail':
                body.append((h.new(), R.choice(({1: 'error'}, {2: 'deadlock'}, {1: 'drop'}, {2: 'drop'}, {2: 'ack'}))))
            h.block(1, body, 'fail' if s[1] == 'fail' else R.choice(('BodyError', 'Stop')) if s[1] else '', fault)
    ending(h, last)


def ending(h, last, who=1):
    if standing(h) != 'up':
        if R.random() < 0.3:
            h.disconnect()
        h.connect()
    other = R.random()
    if other < 0.25:
        h.operate('newest')
    elif other < 0.5:
        h.operate(h.new())
    elif other < 0.6:
        h.operate(h.new(), (), 2)
    if last:
        h.operate(last)
    h.operate('newest')
    h.operate('detect')
    h.end()


with open(sys.argv[1]) as f:
    for n, line in enumerate(f):
        if n % SLICES == SLICE and (THOROUGH or n // SLICES % 5 == 0):
            shape(json.loads(line), BASES[n // SLICES % 4 == 3])

# every statement of an operation
number = 0
for what, prior in (('export', ()), ('bad', ()), ('broken', ()), ('detect', ()), ('detect', ('detect', 'export')), ('recalculate:0', ()),
                    ('recalculate:0', ('recalculate:0',)), ('recalculate:1', ()), ('recalculate:1', ('recalculate:2', 'recalculate:0')),
                    ('recalculate:2', ()), ('newest', ()), ('recalculate:3', ())):
    h = history(BASES[0])
    for p in prior:
        h.operate(h.new() if p == 'export' else p)
    key = (what, h.view())
    h.operate(h.new() if what == 'export' else what)
    ref = h.steps[-1]['ref']
    count = h.db.count
    h.end()
    for k in range(1, count + 2):
        for kind in ('error', 'drop', 'ack', 'deadlock'):
            number += 1
            if number % SLICES != SLICE:
                continue
            if what.startswith('recalculate') and not THOROUGH and R.random() > (0.1 if what[-1] == '1' or prior else 0.15 if kind in ('deadlock', 'ack') else 1):
                continue
            h = history(BASES[0])
            for p in prior:
                h.operate(h.new() if p == 'export' else p)
            w = h.new() if what == 'export' else what
            h.operate(w, {k: kind, 'rollback': R.choice((None, None, None, 'drop'))})
            if R.random() < 0.3:
                h.operate(R.choice(('newest', h.new(), 'detect')))      # before it is connected again
            ending(h, w)


def random_history():
    h = history(R.choice(BASES))
    who = [1] if R.random() < 0.5 else [1, 2]
    for _ in range(R.randrange(3, 12)):
        w = R.choice(who)
        if standing(h, w) != 'up' and R.random() < 0.8:
            if R.random() < 0.4:
                h.e(w)
                h.disconnect(w, R.choice(('', 'close', 'other')))
            h.connect(w, R.random() < 0.1)
            continue
        x = R.random()
        if x < 0.08:
            h.disconnect(w, R.choice(('', '', 'close', 'system', 'other')))
        elif x < 0.16 and standing(h, w) == 'none':
            h.block(w, [(h.new(), ()), (h.new(), {R.randrange(1, 4): R.choice(('error', 'drop', 'ack'))})], R.choice(('', 'fail', 'BodyError', 'Stop')),
                    R.choice(('', 'close')))
        else:
            what = R.choice(('export', 'export', 'bad', 'broken', 'detect', 'detect', 'newest', 'recalculate:2', 'recalculate:0'))
            what = h.new() if what == 'export' else what
            plan = {}
            if R.random() < 0.5:
                plan = lambda ref: {R.randrange(1, len(ref.log) + 2): R.choice(('error', 'deadlock', 'drop', 'ack')),
                                    'rollback': R.choice((None, None, 'drop'))}
            h.operate(what, plan, w)
            if h.steps[-1]['fired'] and R.random() < 0.5:
                if standing(h, w) != 'up':
                    h.connect(w)
                h.operate(what, (), w)
    ending(h, None)


for _ in range((3000 if THOROUGH else 180) // SLICES):
    random_history()
TRACE.close()
