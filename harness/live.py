"""live.py BEHAVIOURS SLICE SLICES OUT: packets of an emulated console, taken by a real poller in the foreground or by its background session,
are handed to a real exporter for rapid updates to an emulated service.  Judges nothing."""
import datetime
import json
import os
import sys
import threading
import time

from common import THOROUGH, Hang, Trace, limit, repo_module, rng
import codec
import console
import requests_of
import transport
import zones
from transport import codes

poller = repo_module('weatherlink.poller')
wunderground = repo_module('weatherlink.exporter.wunderground')
SLICE, SLICES = int(sys.argv[2]), int(sys.argv[3])
TRACE = Trace(sys.argv[4])
R = rng('live-%d' % SLICE)
codec.R = R
console.install()
transport.install()
CONSOLE = console.Console()
STRIDE = 48
threading.excepthook = lambda *_: None      # a callback that fails
FAILURES = ((500, 'success'), (0, ''), (200, 'INVALIDPASSWORDID'), (302, ''), (404, 'Not Found'))


class Weather(object):
    """What a station's packets look like."""
    def __init__(self):
        self.missing = R.choice((0, 0.05, 0.5))
        self.heading = R.randrange(1, 361)
        self.swing = R.choice((0, 10, 60, 180))
        self.wind = R.choice((3, 30, 200))
        self.rain = R.choice((0, 1, 40))
        self.wild = R.random() < 0.2

    def packet(self):
        b = bytearray(codec.loop2_base(crc=False))
        if not self.wild:
            gone = lambda: R.random() < self.missing
            put = lambda o, v: b.__setitem__(slice(o, o + 2), codec.le(v & 0xFFFF))
            put(7, 0 if gone() else R.randrange(28000, 31000))
            put(9, 32767 if gone() else R.randrange(500, 900))
            b[11] = 255 if gone() else R.randrange(101)
            put(12, 32767 if gone() else R.randrange(-400, 1100))
            b[14] = 255 if gone() else R.choice((0, R.randrange(self.wind)))
            put(16, 0 if gone() else (self.heading + R.randrange(-self.swing, self.swing + 1) - 1) % 360 + 1)
            put(18, 0 if gone() else R.randrange(300))
            put(20, 0 if gone() else R.randrange(300))
            put(22, 0 if gone() else R.randrange(600))
            put(24, 0 if gone() else R.randrange(1, 361))
            put(30, 255 if gone() else R.randrange(-40, 90))
            b[33] = 255 if gone() else R.randrange(101)
            b[43] = 255 if gone() else R.randrange(160)
            put(44, 32767 if gone() else R.randrange(1500))
            put(50, R.randrange(self.rain + 1))
            put(54, R.randrange(self.rain + 1))
        c = codec.crc16(b[:97])
        b[97:99] = bytes((c >> 8, c & 255))
        return bytes(b)


class History(object):
    def __init__(self, zone):
        self.zone = zone
        self.exporter = wunderground.WundergroundExporter('KTNNASHV1', 'secret')
        self.exporter.station_time_zone = zone
        self.poller = poller.IPPoller(CONSOLE.host, CONSOLE.port)
        self.poller.connect()
        CONSOLE.drain()
        self.weather, self.held, self.steps, self.updates = Weather(), [], [], 0
        self.now = datetime.datetime(R.randrange(2007, 2037), R.choice((1, 3, 7, 10, 11)), R.randrange(1, 29), R.randrange(24), R.randrange(60))
        self.stuck = False

    def packets(self, n):
        if R.random() < 0.1:
            self.weather = Weather()
        out = [self.weather.packet() for _ in range(n)]
        if n > 1 and R.random() < 0.1:
            k = R.randrange(1, n)
            out[k] = out[k - 1]
        return out

    def update(self, record, reply=(200, 'success'), failed=None):
        self.now += datetime.timedelta(seconds=2)
        record['date'] = self.now
        self.updates += 1
        return requests_of.update(self.exporter, 'rapid', record, reply[0], reply[1], failed)

    def reaction(self, data, close=False):
        pieces, at = [b'\x06'], 0
        size = R.choice((99, 99, 1000, 98, 150, 7))
        for at in range(0, len(data), size):
            pieces.append(data[at:at + size])
        CONSOLE.script[:] = [dict(send=pieces if R.random() < 0.7 else [b'\x06' + data], close=close)]
        console.LIMITS[:] = R.choice(([], [], [99], [50, 1, 49]))

    def poll(self, n):
        packets = self.packets(n)
        self.reaction(b''.join(packets))
        try:
            with limit(10):
                got = list(self.poller.poll(n))
            out = 'ok'
        except Hang:
            out, got = 'hang', []
        except Exception:
            out, got = 'error', []
        self.held.extend(got)
        self.steps.append(dict(do='poll', size=n, packets=[list(p) for p in packets], out=out, count=len(got)))
        if out != 'ok':
            self.reconnect()

    def send(self):
        if self.held:
            reply = R.choice(FAILURES) if R.random() < 0.1 else (200, 'success')
            self.steps.append(dict(do='send', update=self.update(self.held.pop(0), reply)))

    def drop(self):
        if self.held:
            del self.held[:]
            self.steps.append(dict(do='drop'))

    def background(self, n, how='all', at=0):
        packets, updates = self.packets(n), []
        data = b''.join(packets)
        if how == 'cut':
            data = data[:99 * at + R.choice((0, 0, 1, 50, 98))]
        self.reaction(data, close=how == 'cut')

        def callback(record):
            failed = []
            reply = R.choice(FAILURES) if how == 'fail' and len(updates) + 1 == at else (200, 'success')
            updates.append(self.update(record, reply, failed))
            if how == 'stop' and len(updates) == at:
                self.poller.stop_background_polling()
            if failed:
                raise failed[0]
        before = set(threading.enumerate())
        try:
            with limit(10):
                self.poller.start_background_polling(n, callback)
                out = 'ok'
                for t in threading.enumerate():
                    if t not in before:
                        t.join(8)
                        self.stuck = self.stuck or t.is_alive()
        except Hang:
            out = 'hang'
        except Exception:
            out = 'error'
        self.steps.append(dict(do='background', size=n, how=how, at=at, packets=[list(p) for p in packets], out='stuck' if self.stuck else out,
                               updates=updates))
        if how != 'all' or out != 'ok' or self.stuck:
            self.reconnect()

    def reconnect(self):
        self.poller.disconnect()
        self.poller.connect()
        CONSOLE.drain()

    def step(self, step, scale=1):
        what, a = step[0], step[1:]
        if what == 'poll':
            self.poll(a[0] * scale)
        elif what == 'start':
            n, how, at = a
            self.background(n * scale, how, at * scale)
        else:
            getattr(self, what)()

    def end(self):
        while self.held and R.random() < 0.9:
            self.send()
        try:
            self.poller.disconnect()
        except Exception:
            pass
        console.forget()
        TRACE.case(n=self.updates, id=codes('KTNNASHV1'), password=codes('secret'), zone=self.zone, steps=self.steps)


ZONES = ('America/Chicago', 'America/Los_Angeles', 'Europe/Berlin', 'UTC', 'Asia/Kolkata')
ZONES = tuple(z for z in ZONES if z in zones.NAMES)
with open(os.path.join(os.environ['SCRATCH'], sys.argv[1])) as f:
    behaviours = sorted(set(f))
for n, line in enumerate(behaviours):
    if n % SLICES == SLICE and (THOROUGH and n // SLICES % 8 == 0 or n // SLICES % STRIDE == 0):
        h = History(R.choice(ZONES))
        for step in json.loads(line):
            h.step(step)
        h.end()


def long_history():
    h = History(R.choice(ZONES))
    room = R.choice((40, 80, 130))
    while room > 0 and not h.stuck:
        x, n = R.random(), R.choice((1, 2, 3, R.randrange(1, 30), R.randrange(20, 60)))
        room -= n
        if x < 0.35:
            h.poll(n)
            for _ in range(n):
                if R.random() < 0.97:
                    h.send()
        elif x < 0.7:
            h.background(n)
        else:
            how = R.choice(('stop', 'fail', 'cut'))
            h.background(n, how, R.randrange(1, n + 1) if how != 'cut' else R.randrange(n))
        if R.random() < 0.1:
            h.drop()
    h.end()


for _ in range((400 if THOROUGH else 80) // SLICES):
    long_history()
TRACE.close()
