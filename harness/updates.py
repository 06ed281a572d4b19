"""updates.py MODE [BEHAVIOURS] OUT: updates sent to an emulated Weather Underground.  MODE: C33, C34 or C25."""
import datetime
import io
import json
import os
import sys
from decimal import Decimal

from common import THOROUGH, Trace, onum, repo_module, rng
import codec
import requests_of
import transport
import zones
from transport import codes

wunderground = repo_module('weatherlink.exporter.wunderground')
models = repo_module('weatherlink.models')
utils = repo_module('weatherlink.utils')
MODE = sys.argv[1]
TRACE = Trace(sys.argv[-1])
R = rng('updates-' + MODE)
codec.R = R
transport.install()
SIMPLE = ('wind_speed', 'wind_direction_prevailing_degrees', 'wind_speed_high', 'wind_direction_speed_high_degrees', 'humidity_outside',
          'temperature_outside', 'barometric_pressure', 'solar_radiation', 'uv_index', 'temperature_inside', 'humidity_inside')
RAPID = ('wind_speed', 'wind_direction_degrees', 'wind_speed_2_minute_average', 'wind_speed_10_minute_gust',
         'wind_speed_10_minute_gust_direction_degrees', 'humidity_outside', 'dew_point', 'temperature_outside', 'rain_amount_1_hour',
         'rain_amount_today', 'barometric_pressure', 'solar_radiation', 'uv_index', 'temperature_inside', 'humidity_inside')

DEW = ('temperature_outside', 'humidity_outside')
LONG = (Decimal('1234.567'), Decimal('29.0'), Decimal('99999.999'), Decimal('0.001'), Decimal('100000'), 123456, 7, Decimal('1013.250'))


def simple_record(date):
    while True:
        if R.random() < 0.5:
            r = models.ArchiveIntervalRecord.load_from_download(io.BytesIO(codec.download_base()), 5)
        else:
            r = models.ArchiveIntervalRecord.load_from_wlk(io.BytesIO(codec.wlk_base()), 2016, 4, 1)
        if r is None:
            continue
        for k in SIMPLE:            # more missing ones and zeros than there are by chance
            if R.random() < 0.15:
                r[k] = None
            elif R.random() < 0.1:
                r[k] = Decimal('0.0')
            elif R.random() < 0.04 and k not in DEW:
                r[k] = R.choice(LONG)
        r['date'] = date
        try:
            dewpoint(r)
        except Exception:
            continue
        return r


def dewpoint(r):
    t, h = r['temperature_outside'], r['humidity_outside']
    if t is None or not h:
        return []
    return onum(utils.calculate_dew_point(t, h), 3)


def rapid_record(date):
    r = models.LoopRecord.load_loop_2_from_connection(io.BytesIO(codec.loop2_base()))
    for k in RAPID:
        if R.random() < 0.15:
            r[k] = None
        elif R.random() < 0.1:
            r[k] = Decimal('0.0')
        elif R.random() < 0.04:
            r[k] = R.choice(LONG)
    r['date'] = date
    return r


class History(object):
    def __init__(self, zone=None, give=None):
        self.station, self.password = R.choice(('KTNNASHV1', 'IBERLIN42', 'X1', 'kTnNaSh7')), R.choice(
            ('secret', 'p&ss=w rd+%', 'ünï', '#/?', '%20', 'a&tempf=99', "'\"<>"))
        self.exporter = wunderground.WundergroundExporter(self.station, self.password)
        self.zone = zone or 'America/Chicago'
        if zone:
            self.exporter.station_time_zone = give
        self.steps = []

    def send(self, kind, record, reply=None):
        status, text = (200, 'success') if reply is None else (reply['status'], reply['text'])
        fields = {k: onum(record[k], 3) for k in (SIMPLE if kind == 'simple' else RAPID)}
        fields.setdefault('wind_direction_degrees', [])         # records of the archive have none
        dew = dewpoint(record) if kind == 'simple' else []
        self.steps.append(dict(requests_of.update(self.exporter, kind, record, status, text), record=fields, dewpoint=dew))

    def end(self):
        TRACE.case(n=len(self.steps), id=codes(self.station), password=codes(self.password), zone=self.zone, steps=self.steps)


def some_date():
    return datetime.datetime(R.randrange(2000, 2038), R.randrange(1, 13), R.randrange(1, 29), R.randrange(24), R.randrange(60))


def contents():
    with open(os.path.join(os.environ['SCRATCH'], sys.argv[2])) as f:
        behaviours = [json.loads(line) for line in f]
    for b in behaviours:
        h = History()
        for s in b:
            h.send(s['kind'], (simple_record if s['kind'] == 'simple' else rapid_record)(some_date()), s['answer'])
        h.end()
    for fields, make, kind in ((SIMPLE, simple_record, 'simple'), (RAPID, rapid_record, 'rapid')):
        base = {k: Decimal('12.5') for k in fields}
        for a in fields:
            for b in fields:
                for absent in (True, False):        # all but two missing; two missing; zeros
                    r = make(some_date())
                    for k in fields:
                        r[k] = base[k] if (k in (a, b)) != absent else R.choice((None, None, Decimal(0)) if absent is False else (None,))
                    h = History()
                    h.send(kind, r)
                    h.end()
        for _ in range(4000 if THOROUGH else 400):
            h = History()
            for _ in range(R.randrange(1, 4)):
                h.send(kind, make(some_date()))
            h.end()


def recent():
    template = models.LoopRecord.load_loop_2_from_connection(io.BytesIO(codec.loop2_base()))
    for k in RAPID:
        template[k] = None

    def steps(speeds, directions):
        h, mixed = History(), R.random() < 0.25
        d = datetime.datetime(2018, 1, 2, 3, 4)
        for speed, direction in zip(speeds, directions):
            r = models.LoopRecord(template)
            r['wind_speed'], r['wind_direction_degrees'] = speed, direction
            d += datetime.timedelta(seconds=2)
            r['date'] = d
            if mixed and R.random() < 0.1:          # a simple update in between
                a = simple_record(d)
                a['wind_speed'] = R.choice((speed, a['wind_speed']))
                h.send('simple', a)
            h.send('rapid', r, dict(status=R.choice((0, 404, 500, 200)), text='INVALID') if R.random() < 0.04 else None)
            yield
        h.end()

    def history(*args):
        for _ in steps(*args):
            pass

    def sometimes(p, values):
        return [None if R.random() < p else v for v in values]
    around = lambda c, w, n: [(c + R.randrange(-w, w + 1)) % 360 or 360 for _ in range(n)]
    n = 80
    for k in range(600 if THOROUGH else 60):
        speeds = R.choice((
            lambda: [R.randrange(3) for _ in range(n)],
            lambda: [R.randrange(60) for _ in range(n)],
            lambda: [R.randrange(0, 20) + (40 if R.random() < 0.04 else 0) for _ in range(n)],
            lambda: [max(0, 40 - j) for j in range(n)],
            lambda: [j // 3 for j in range(n)],
            lambda: [0] * n))()
        c = R.randrange(1, 361)
        directions = R.choice((
            lambda: around(c, 0, n), lambda: around(360, 15, n), lambda: around(c, 40, n), lambda: around(c, 85, n),
            lambda: [R.choice((c, c % 360 + 1)) for _ in range(n)],
            lambda: [R.choice((350, 10)) for _ in range(n)],
            lambda: [(c + 4 * j) % 360 or 360 for j in range(n)],
            lambda: [(c - j) % 360 or 360 for j in range(n)],
            lambda: [R.randrange(1, 13) * 30 for _ in range(n)]))()
        history(sometimes(R.choice((0, 0.1, 0.5, 0.95)), speeds), sometimes(R.choice((0, 0.1, 0.5, 0.95)), directions))
    for p in range(0, 12):          # one gust and one direction, then nothing more for longer than both windows
        quiet = R.choice((None, 0, 3))
        history([quiet] * p + [50] + [quiet] * 60, [None] * p + [c] + [None] * 60)
        history([50] + [quiet] * p + [50] + [quiet] * 60, [90] + [None] * p + [180] + [None] * 60)
        history([5] * p + [50] + [5] * 60, [200] * p + [20] + [200] * 60)
    for _ in range(400 if THOROUGH else 80):
        m = R.randrange(1, 8)
        history(sometimes(0.3, [R.randrange(4) for _ in range(m)]), sometimes(0.3, around(R.choice((360, 90, c)), R.choice((5, 60)), m)))
    for _ in range(40 if THOROUGH else 10):     # two exporters, taking turns
        turns = [steps([R.randrange(3 * w) for _ in range(40)], around(R.randrange(1, 361), 30, 40)) for w in (1, 20)]
        while turns:
            t = R.choice(turns)
            if next(t, t) is t:
                turns.remove(t)


def times():
    for name, give, t in zones.cases(R, 40 if THOROUGH else 6):
        h = History(name, give)
        r = simple_record(t)
        h.send('simple', r)
        h.end()
    for name, give, ts in zones.spells(R, 10 if THOROUGH else 2):
        h = History(name, give)
        for t in ts:
            h.send('simple', simple_record(t))
        h.end()
    for t in zones.moments(R, 'America/Chicago', 20):           # the zone that is assumed
        h = History()
        h.send('simple', simple_record(t))
        h.end()
        h = History('America/Chicago', None)
        h.send('simple', simple_record(t))
        h.end()


{'C33': contents, 'C34': recent, 'C25': times}[MODE]()
TRACE.close()
