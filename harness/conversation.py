"""conversation.py MODE BEHAVIOURS OUT: a real communicator talks to an emulated console over a real connection.

Histories come from the specification (shapes of calls, filled with contents here), from sweeps of one call with every
acknowledgement byte / truncation / corruption / length, and at random."""
import json
import os
import sys
import threading

from common import BAD, THOROUGH, Hang, Trace, limit, num, repo_module, rng  # noqa
import console
import codec

poller_module = repo_module('weatherlink.poller')
MODE = sys.argv[1]
TRACE = Trace(sys.argv[3])
R = rng('conversation-' + MODE)
codec.R = R
HANGS = [0]

console.install()
EMULATOR = console.Console()
crc_bytes = lambda b: (lambda v: bytes((v >> 8, v & 255)))(codec.crc16(b))
FRAGMENTS = [[], [], [1], [1, 2, 3], [2], [98, 1], [99], [100], [97, 3, 1], [7, 50, 1, 1]]


class History(object):
    def __init__(self):
        self.mem = bytearray(R.randrange(256) for _ in range(256))
        self.start = list(self.mem)
        self.events = []
        self.stale = b''
        self.dead = False
        self.hung = False
        self.constructed = []
        try:
            self.communicator = poller_module.IPPoller(EMULATOR.host, EMULATOR.port)
            self.communicator.connect()
        except Exception as e:
            self.constructed = [type(e).__name__]

    def reconnect(self):
        try:
            self.communicator.disconnect()
            self.communicator.connect()
            self.constructed = []
        except Exception as e:
            self.constructed = [type(e).__name__]
        EMULATOR.drain()
        self.stale, self.dead = b'', False
        self.events.append(dict(k='reconnect', sent=[], out=[], value=[], resp=[], eof=False))

    def response(self, ack, rest, close):
        """What the console sends: unread bytes of an earlier response take the place of the acknowledgement."""
        if self.stale:
            accepted = self.stale[0] == 6
            self.stale = self.stale[1:]
            return (rest if accepted else b''), accepted, close and accepted
        sends = ack + (rest if ack == b'\x06' else b'')
        if ack and ack != b'\x06':
            self.stale = ack[1:]
        return sends, ack == b'\x06', close

    def perform(self, event, call, resp, accepted, close, encode):
        EMULATOR.drain()
        pieces = [resp]
        if len(resp) > 1 and R.random() < 0.3:
            k = R.randrange(1, len(resp))
            pieces = [resp[:k], resp[k:]]
        EMULATOR.script[:] = [dict(send=pieces, close=close, accept=accepted)]
        console.LIMITS[:] = R.choice(FRAGMENTS)
        value = []
        try:
            with limit(6):
                result = call()
            out = []
            value = encode(result)
            if value is None:
                out, value = ['WrongValue'], []
        except Hang:
            out = ['Hang']
            HANGS[0] += 1
            self.hung = True
        except BaseException as e:
            out = [c.__name__ for c in type(e).__mro__]
        event.update(resp=list(resp), eof=bool(close), out=out, value=value, sent=EMULATOR.drain())
        self.events.append(event)
        if close:
            self.dead = True
        return event

    # ---- calls
    def setting(self):
        n = R.choice((1, 1, 2, 3, 4, 8, 16, R.randrange(1, 64)))
        at = R.choice((0, 1, 43, 255, 256 - n, R.randrange(256)))
        at = min(at, 256 - n)
        f = R.choice(('%02X', '%X', '%02x', '%x'))
        return at, f % at, n, R.choice((f, '%02X')) % n

    def damaged(self, body, plan):
        if plan == 'short':
            return body[:R.randrange(len(body))]
        if plan == 'corrupt':
            i, x = R.randrange(8 * len(body)), R.choice((1, 1, 3, 0x81, R.randrange(1, 65536)))
            v = int.from_bytes(body, 'big') ^ ((x << i) & ((1 << 8 * len(body)) - 1))
            return v.to_bytes(len(body), 'big')
        return body

    ACKS = {'nak': b'\x15', 'bang': b'\x21', 'eof': b''}

    def ack(self, plan):
        if plan == 'other':
            return bytes((R.choice([x for x in range(256) if x not in (6, 21, 33)]),))
        if plan == 'stale':
            return bytes((R.choice((21, 33, 0)), R.choice((6, 6, 0, 21, 33))))
        return self.ACKS.get(plan, b'\x06')

    def read(self, plan, confirm, ret, setting=None, body=None, ack=None, mask=None):
        kind = {None: 'read', 'rain': 'rain'}.get(mask, 'bit')
        if kind != 'read':
            at, addr, n, length = 0x2B, '2B', 1, '01'
        else:
            at, addr, n, length = setting or self.setting()
        data = bytes(self.mem[at:at + n])
        rest = self.damaged(data + crc_bytes(data), plan) if body is None else body
        stale = bool(self.stale)
        resp, accepted, close = self.response(self.ack(plan) if ack is None else ack, rest, plan in ('eof', 'short'))
        if kind == 'rain':
            call = self.communicator.read_rain_collector_type
            encode = lambda v: [num(v)]
        elif kind == 'bit':
            call = lambda: self.communicator.read_setup_bit(mask)
            encode = lambda v: [num(v)]
        else:
            kwargs = {}
            if confirm is not True or R.random() < 0.3:
                kwargs['confirm_crc'] = confirm
            if ret or R.random() < 0.3:
                kwargs['return_crc'] = ret
            call = lambda: self.communicator.read_config_setting(addr, length, **kwargs)
            encode = lambda v: list(v) if isinstance(v, bytes) else [BAD]
        event = dict(k=kind, at=at, addr=[ord(x) for x in addr], len=[ord(x) for x in length], n=n, confirm=bool(confirm),
                     ret=bool(ret), mask=mask if kind == 'bit' else 0,
                     sound=plan == 'ack' and not stale and body is None and ack is None)
        return self.perform(event, call, resp, accepted, close, encode)

    def write(self, plan, setting=None, data=None, ack=None):
        at, addr, n, length = setting or self.setting()
        if data is None:
            size = n if plan != 'mismatch' else R.choice([x for x in (0, n - 1, n + 1, n + 2, 2 * n) if x != n and x >= 0])
            data = bytes(R.choice((0, 10, 13, 255, R.randrange(256))) for _ in range(size))
        if len(data) != n:
            resp, accepted, close = b'', False, False
        else:
            resp, accepted, close = self.response(self.ack(plan) if ack is None else ack, b'', plan == 'eof')
        event = dict(k='write', at=at, addr=[ord(x) for x in addr], len=[ord(x) for x in length], n=n, data=list(data))
        e = self.perform(event, lambda: self.communicator.write_config_setting(addr, length, data), resp, accepted, close,
                         lambda v: [] if v is None else [BAD])
        # the console stores what it received in full with a valid checksum
        tail = bytes(e['sent'])[-(n + 2):] if accepted else b''
        if len(tail) == n + 2 and codec.crc16(tail) == 0 and len(e['sent']) > n + 2:
            self.mem[at:at + n] = tail[:n]
        return e

    def packets(self, n):
        out = []
        for _ in range(n):
            b = out[-1] if out and R.random() < 0.1 else R.choice(out) if out and R.random() < 0.1 else codec.loop2_base()
            if R.random() < 0.15:       # a bad checksum does not prevent decoding
                b = codec.put(b, 97, bytes((b[97] ^ R.randrange(1, 256),)))
            out.append(b)
        return out

    def poll(self, plan, n=None, ack=None, body=None, type=None):
        n = R.choice((0, 1, 1, 2, 3)) if n is None else n
        if plan in ('short', 'malformed'):
            n = max(n, 1)
        if self.stale[:1] == b'\x06' and len(self.stale) == 1:
            type = 2
        if type is None:
            type = R.choice((1, 2, 3)) if plan in ('nak', 'bang', 'other', 'eof', 'stale') else 2
        packets = self.packets(n)
        rest = b''.join(packets)
        if plan == 'short':
            rest = rest[:R.randrange(len(rest))]
        elif plan == 'malformed':
            k = 99 * R.randrange(n) + R.choice((0, 1, 2, 4, 95, 96))
            rest = codec.put(rest, k, bytes((rest[k] ^ R.choice((1, 128, R.randrange(1, 256))),)))
            rest = rest[:99 * (k // 99 + 1)] if R.random() < 0.5 else rest
        if body is not None:
            rest = body
        resp, accepted, close = self.response(self.ack(plan) if ack is None else ack, rest, plan in ('eof', 'short', 'malformed'))
        self.communicator.packet_type = type
        event = dict(k='poll', n=n, type=type)
        return self.perform(event, lambda: self.communicator.poll(n), resp, accepted, close,
                            lambda v: [codec.encode_loop2(x) for x in v] if isinstance(v, list) else None)

    def background(self, plan, n=None, stop=None, ack=None):
        n = R.choice((1, 2, 3, 0)) if n is None else n
        if plan == 'stopped':
            n = max(n, 1)
            stop = R.randrange(1, n + 1) if stop is None else stop
        stop = stop or 0
        rest = b''.join(self.packets(stop or n))
        resp, accepted, close = self.response(self.ack(plan) if ack is None else ack, rest, plan == 'eof')
        self.communicator.packet_type = 2
        got = []

        def callback(packet):
            got.append(packet)
            if len(got) == stop:
                self.communicator.stop_background_polling()

        def call():
            before = set(threading.enumerate())
            self.communicator.start_background_polling(n, callback)
            for t in set(threading.enumerate()) - before:
                t.join(4)
                if t.is_alive():
                    raise Hang()
            return got

        return self.perform(dict(k='background', n=n, type=2, stop=stop), call, resp, accepted, close,
                            lambda v: [codec.encode_loop2(x) for x in v])

    def shape(self, x):
        if self.dead:
            self.reconnect()
        k, plan = x['k'], x['plan']
        if self.constructed or self.hung:
            return
        if k == 'read':
            self.read(plan, x['confirm'], x['ret'])
        elif k == 'bit':
            self.read(plan, True, False, mask=R.choice((0, 1, 2, 12, 48, 128, 255, R.randrange(256))))
        elif k == 'rain':
            self.read(plan, True, False, mask='rain')
        elif k == 'write':
            self.write(plan)
        elif k == 'poll':
            self.poll(plan)
        elif k == 'background':
            self.background(plan)

    def end(self):
        TRACE.case(n=max(1, len(self.events)), mem=self.start, events=self.events, constructed=self.constructed)
        try:
            self.communicator.disconnect()
        except Exception:
            pass
        console.forget()
        console.COUNTS['taken'] = console.COUNTS['sent']
        del EMULATOR.received[:]
        if HANGS[0] > 4:
            finish()


def finish():
    TRACE.close()
    sys.stdout.flush()
    os._exit(0)


def history(*calls):
    h = History()
    for c in calls:
        if h.dead and not h.hung:
            h.reconnect()
        if not h.constructed and not h.hung:
            c(h)
    h.end()


def acknowledgements():
    """Every acknowledgement byte and end of stream after every kind of command, followed by another command."""
    kinds = [lambda h, a: h.read('ack', True, False, ack=a),
             lambda h, a: h.read('ack', True, False, ack=a, mask='rain'),
             lambda h, a: h.write('ack', ack=a),
             lambda h, a: h.poll('ack', ack=a),
             lambda h, a: h.background('ack', ack=a)]
    for call in kinds:
        for x in range(256):
            history(lambda h: call(h, bytes((x,))), lambda h: h.read('ack', True, False))
        history(lambda h: call(h, b'\x06'), lambda h: h.write('eof'), lambda h: h.read('ack', True, False))


def settings():
    """Every length, every truncation of some, every bit of some corrupted."""
    for n in range(1, 256):
        at = R.randrange(0, 257 - n)
        history(lambda h: h.read('ack', True, R.random() < 0.5, setting=(at, '%02X' % at, n, '%02X' % n)),
                lambda h: h.read('ack', R.random() < 0.5, False))
    for n in (1, 2, 5, 16) + ((40, 128) if THOROUGH else ()):
        s = (3, '03', n, '%02X' % n)
        for k in range(n + 2):
            for confirm in (True, False):
                history(lambda h: h.read('short', confirm, False, setting=s, body=bytes(h.mem[3:3 + n] + crc_bytes(bytes(h.mem[3:3 + n])))[:k]))
        for bit in range(8 * (n + 2)):
            def corrupt(h, width=1):
                d = bytes(h.mem[3:3 + n])
                v = int.from_bytes(d + crc_bytes(d), 'big') ^ (1 << bit)
                h.read('corrupt', True, R.random() < 0.5, setting=s, body=v.to_bytes(n + 2, 'big'))
            history(corrupt, corrupt)
    remaining = {codec.crc16(bytes((x >> 8, x & 255))): x for x in range(65536)}
    for r in [k << 8 for k in range(1, 256)] + list(range(1, 256)) + [R.randrange(1, 65536) for _ in range(6000 if THOROUGH else 100)]:
        def residue(h, n=R.choice((1, 2, 7))):      # the checksum of the whole response is r instead of zero
            d = bytes(h.mem[9:9 + n])
            v = int.from_bytes(d + crc_bytes(d), 'big') ^ remaining[r]
            h.read('corrupt', True, R.random() < 0.5, setting=(9, '09', n, '%02X' % n), body=v.to_bytes(n + 2, 'big'))
        history(residue)
    for value in range(256):
        def bits(h):
            h.mem[43] = value
            h.start[43] = value
            h.read('ack', True, False, mask='rain')
            h.read('ack', True, False, mask=R.randrange(256))
        history(bits)


def writes():
    for n in list(range(1, 40)) + [64, 100, 128, 200, 255]:
        at = R.randrange(0, 257 - n)
        s = (at, '%02X' % at, n, '%02X' % n)
        history(lambda h: h.write('ack', setting=s), lambda h: h.read('ack', True, False, setting=s),
                lambda h: h.read('ack', True, False))
        for size in {0, 1, n - 1, n + 1, n + 2, 2 * n, 256, n + 256} - {n}:
            history(lambda h: h.write('mismatch', setting=s, data=bytes(size)), lambda h: h.read('ack', True, False, setting=s))
    for x in range(256):            # values and checksums with every byte, among them those of commands and of text encodings
        history(lambda h: h.write('ack', setting=(7, '07', 1, '01'), data=bytes((x,))),
                lambda h: h.read('ack', True, True, setting=(7, '07', 1, '01')),
                lambda h: h.write('ack', setting=(6, '06', 3, '03'), data=bytes((x, R.randrange(256), 255 - x))),
                lambda h: h.read('ack', True, True, setting=(5, '05', 5, '05')))


def polls():
    for n in list(range(0, 12)) + [20, 40, 100, 200, 256, 300]:
        history(lambda h: h.poll('ack', n=n), lambda h: h.poll('ack', n=2))
        history(lambda h: h.background('ack', n=n), lambda h: h.poll('ack', n=1))
    for n in (1, 2, 3):
        for k in range(0, 99 * n, 1 if THOROUGH else 4):
            history(lambda h: h.poll('short', n=n, body=b''.join(h.packets(n))[:k]))
    for at in (0, 1, 2, 4, 95, 96):
        for x in (range(256) if THOROUGH else R.sample(range(256), 12)):
            for n, bad in ((1, 0), (3, 0), (3, 1), (3, 2)):
                def malformed(h):
                    b = b''.join(h.packets(n))
                    h.poll('short', n=n, body=codec.put(b, 99 * bad + at, bytes((x,))))
                history(malformed, lambda h: h.poll('ack', n=1))


with open(os.path.join(os.environ['SCRATCH'], sys.argv[2])) as f:
    behaviours = [json.loads(line) for line in f]
if len(behaviours) > 25000:
    behaviours = R.sample(behaviours, 25000)
{'C02': acknowledgements, 'C03': settings, 'C04': writes, 'C06': polls}[MODE]()
for b in behaviours:
    history(*[lambda h, x=x: h.shape(x) for x in b])
alphabet = [x for b in behaviours for x in b]
for _ in range(2000 if THOROUGH else 200):
    history(*[lambda h, x=x: h.shape(x) for x in [R.choice(alphabet) for _ in range(R.randrange(3, 20))]])
finish()
