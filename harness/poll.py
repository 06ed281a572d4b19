"""poll.py BEHAVIOURS SHARD SHARDS OUT: background polling under control.

Every thing that happens outside the session - the caller's calls, the console's packets, the callback's return - is caused
here, one at a time; what the session does in between is observed.  Schedules come from the specification, at random, and
from pausing the session (or the caller) at every line it executes while the others go on."""
import functools
import json
import os
import queue
import socket
import sys
import threading
import time

from common import REPO, THOROUGH, BAD, Hang, Trace, limit, repo_module, rng  # noqa
import console
import codec

poller_module = repo_module('weatherlink.poller')
SHARD, SHARDS = int(sys.argv[2]), int(sys.argv[3])
TRACE = Trace(sys.argv[4])
R = rng('poll')
codec.R = R
console.install()
EMULATOR = console.Console()
MAIN = threading.main_thread()
TROUBLE = [0]
threading.excepthook = lambda *_: None
BASE = codec.loop2_base()


def packet(i):
    b = codec.put(BASE, 7, bytes((i & 255, i >> 8)))
    c = codec.crc16(b[:97])
    return codec.put(b, 97, bytes((c >> 8, c & 255)))


def identity(record):
    try:
        return int(round(float(record['barometric_pressure']) * 1000))
    except Exception:
        return BAD


class Collector(list):
    """A callback may be any callable, also one with a truth value."""
    def __init__(self, callback):
        super(Collector, self).__init__()
        self.callback = callback

    def __call__(self, record):
        self.callback(record)


KINDS = (lambda f: f, lambda f: lambda record: f(record), functools.partial, Collector)


class CallbackError(Exception):
    pass


class Bystander(object):
    """Another poller with a session of its own, waiting for packets all the time."""
    def __init__(self):
        self.log, self.alive, self.ids = [], 0, 0
        self.console = console.REAL(socket.AF_INET, socket.SOCK_STREAM)
        self.console.bind(('127.0.0.1', 0))
        self.console.listen(1)
        self.poller = poller_module.IPPoller(*self.console.getsockname())
        self.poller.connect()
        self.connection, _ = console.REAL.accept(self.console)
        console.REAL.sendall(self.connection, b'\x06')
        before = set(threading.enumerate())
        self.call('start', 40, 6)
        self.threads = set(threading.enumerate()) - before
        del console.OPEN[:]
        self.wait(lambda: console.Tracked.blocked > 0)
        self.alive = console.Tracked.blocked
        self.quiet()

    def wait(self, condition):
        deadline = time.time() + 2
        while not condition() and time.time() < deadline:
            time.sleep(0.001)

    def call(self, op, n=0, ack=0):
        self.log.append(dict(e='call', who=1, op=op, n=n, ack=ack))
        try:
            with limit(4):
                self.poller.start_background_polling(n, self.callback) if op == 'start' else self.poller.stop_background_polling()
            out = 'ok'
        except Hang:
            out = 'Hang'
        except BaseException as e:
            out = type(e).__name__
        self.log.append(dict(e='ret', who=1, op=op, out=out))

    def callback(self, record):
        self.log.append(dict(e='cb', id=identity(record)))
        self.log.append(dict(e='cbend', how='return'))

    def quiet(self):
        self.connection.setblocking(False)
        time.sleep(0.05)
        try:
            data = list(console.REAL.recv(self.connection, 1000))
        except OSError:
            data = []
        console.COUNTS['taken'] = console.COUNTS['sent']
        self.log.append(dict(e='quiet', incb=False, sent=data))

    def release(self):
        """One packet, while everyone else is quiet."""
        self.ids += 1
        self.log.append(dict(e='release', ids=[self.ids]))
        size, read = len(self.log), console.COUNTS['read']
        console.REAL.sendall(self.connection, packet(self.ids))
        self.wait(lambda: len(self.log) >= size + 2 and console.Tracked.blocked >= self.alive)
        console.COUNTS['read'] = read

    def finish(self):
        """Nobody else's sessions had anything to do with it."""
        self.release()
        self.quiet()
        self.call('stop')
        self.release()
        self.wait(lambda: not any(t.is_alive() for t in self.threads))
        self.quiet()
        TRACE.case(n=len(self.log), kind='bystander', events=self.log)


class Schedule(object):
    def __init__(self, kind):
        self.kind = kind
        self.log = []
        self.commands = queue.Queue()
        self.answers = queue.Queue()
        self.gated = 0              # callbacks waiting here for the driver
        self.next_id = 1
        self.unread = 0             # packets sent and not delivered
        self.bad = False
        self.closed = False
        self.dead = False
        self.racing = False         # another caller may start a session at the same time
        self.paused = threading.Event()
        self.resume = threading.Event()
        self.others = {t for t in threading.enumerate()}
        self.poller = poller_module.IPPoller(EMULATOR.host, EMULATOR.port)
        self.connect()

    def connect(self):
        self.poller.connect()
        console.COUNTS['read'] = console.COUNTS['pushed'] = 0
        EMULATOR.drain()
        self.bad, self.closed, self.unread = False, False, 0

    def threads(self):
        return [t for t in threading.enumerate() if t not in self.others and t.is_alive()]

    # ---- the session's side
    def callback(self, record):
        self.log.append(dict(e='cb', id=identity(record)))
        self.unread -= 1
        while True:
            self.gated += 1
            command = self.commands.get()
            if command in ('stop', 'start'):
                out = self.call(command)
                self.log.append(dict(e='cbcall', op=command, out=out))
                self.answers.put(None)
                continue
            how = 'return' if command == 'return' else 'raise'
            self.log.append(dict(e='cbend', how=how))
            if how == 'raise':
                raise CallbackError()
            return

    def call(self, op, n=1):
        try:
            if op == 'stop':
                self.poller.stop_background_polling()
            else:
                self.poller.start_background_polling(n, R.choice(KINDS)(self.callback))
            return 'ok'
        except ValueError:
            return 'ValueError'
        except Hang:
            TROUBLE[0] += 1
            self.dead = True
            return 'Hang'
        except BaseException as e:
            names = [c.__name__ for c in type(e).__mro__]
            return 'nak' if 'NotAcknowledgedError' in names else 'invalid' if 'InvalidAcknowledgementError' in names else names[0]

    # ---- waiting
    def settled(self):
        alive = self.threads()
        nothing_to_read = console.COUNTS['read'] >= console.COUNTS['pushed'] and not self.closed
        return len(alive) <= self.gated + (console.Tracked.blocked - (BYSTANDER.alive if BYSTANDER else 0) if nothing_to_read else 0)

    def settle(self, patience=0.6):
        """Until every session thread waits for us (False: it took too long)."""
        deadline = time.time() + patience
        stable = 0
        while stable < 2:
            stable = stable + 1 if self.settled() else 0
            if self.paused.is_set() and not self.resume.is_set():
                return True
            if time.time() > deadline:
                return False
            time.sleep(0.0002)
        return True

    def quiet(self):
        if not self.settle():
            TROUBLE[0] += 1
        if self.paused.is_set() and not self.resume.is_set():
            self.interpose()
            if not self.settle():
                TROUBLE[0] += 1
        self.log.append(dict(e='quiet', incb=self.gated > 0, sent=EMULATOR.drain()))

    def interpose(self):
        """The session's thread is held at some line: the caller acts meanwhile."""
        for op in self.interposed:
            self.act(op, settle=False)
        self.resume.set()

    # ---- the outside actions
    def act(self, a, settle=True):
        """Whether the action was possible."""
        if self.dead:
            return False
        k = a['a']
        if k == 'start':
            if (self.unread or self.bad) and not self.threads():
                self.reconnect()
            ack = 0 if self.closed else a['ack']
            EMULATOR.script[:] = [dict(send=[bytes((ack,))]) for _ in range(2 if self.racing else 1)]
            self.log.append(dict(e='call', who=1, op='start', n=a['n'], ack=ack))
            with limit(4):
                out = self.call('start', a['n'])
            self.log.append(dict(e='ret', who=1, op='start', out=out))
            del EMULATOR.script[:]
        elif k == 'stop':
            self.log.append(dict(e='call', who=1, op='stop', n=0, ack=0))
            with limit(4):
                out = self.call('stop')
            self.log.append(dict(e='ret', who=1, op='stop', out=out))
        elif k == 'release':
            if not self.threads() or self.bad:
                return False
            ids = []
            for _ in range(a['n']):         # now and then a packet equals an earlier one
                self.next_id += 0 if self.next_id > 1 and R.random() < 0.15 else 1
                ids.append(self.next_id - 1)
            self.unread += a['n']
            self.log.append(dict(e='release', ids=ids))
            EMULATOR.push(b''.join(packet(i) for i in ids))
        elif k in ('eof', 'malformed'):
            if self.bad:
                return False
            self.bad = True
            self.closed = k == 'eof'
            self.log.append(dict(e='bad', kind=k))
            if k == 'eof':
                EMULATOR.push(packet(0)[:R.choice((0, 0, 1, 50, 98))], close=True)
            else:
                EMULATOR.push(codec.put(packet(0), R.choice((0, 1, 2)), b'\x00'))
        else:
            if not self.gated:
                return False
            command = {'cbreturn': 'return', 'cbraise': 'raise', 'cbstop': 'stop', 'cbstart': 'start'}[k]
            self.gated -= 1
            self.commands.put(command)
            if command in ('stop', 'start'):
                try:
                    self.answers.get(timeout=4)
                except queue.Empty:
                    self.dead = True
                    TROUBLE[0] += 1
        if settle:
            self.quiet()
        if settle and k == 'stop' and BYSTANDER and BYSTANDER.ids < 30 and R.random() < 0.05:
            BYSTANDER.release()
            BYSTANDER.log.append(dict(e='quiet', incb=False, sent=[]))
        return True

    def reconnect(self):
        self.log.append(dict(e='reconnect'))
        EMULATOR.drain()
        try:
            self.poller.disconnect()
            self.connect()
        except Exception as e:
            self.dead = True
            self.log.append(dict(e='ret', who=1, op='reconnect', out=type(e).__name__))

    def finish(self):
        """However it went: the session can be ended, and a new one works."""
        for _ in range(12):
            if not self.act(dict(a='cbreturn')):
                break
        if self.threads():
            self.act(dict(a='eof'))
        self.act(dict(a='stop'))
        if not self.dead and not self.threads():
            self.reconnect()
            self.act(dict(a='start', n=1, ack=6))
            self.act(dict(a='release', n=1))
            self.act(dict(a='cbreturn'))
            self.act(dict(a='stop'))
        TRACE.case(n=len(self.log), kind=self.kind, events=self.log)
        try:
            self.poller.disconnect()
        except Exception:
            pass
        self.resume.set()
        for _ in range(3):
            self.commands.put('abandon')
        if EMULATOR.connection is not None:
            console.REAL.close(EMULATOR.connection)
            EMULATOR.connection = None
        console.forget()
        console.COUNTS['taken'] = console.COUNTS['sent']
        del EMULATOR.received[:], EMULATOR.script[:]
        if self.threads():
            deadline = time.time() + 1
            while self.threads() and time.time() < deadline:
                time.sleep(0.001)
            if self.threads():
                TROUBLE[0] += 1
        if TROUBLE[0] > 6:
            done()


def done():
    if BYSTANDER:
        BYSTANDER.finish()
    TRACE.close()
    os._exit(0)


BYSTANDER = Bystander() if SHARD % 2 else None


def replay(actions, kind='schedule'):
    s = Schedule(kind)
    for a in actions:
        s.act(a)
    s.finish()


# ---- preemption
OURS = os.path.join(os.path.realpath(REPO), 'weatherlink') + os.sep


def ours(code, known={}):
    if code not in known:
        f = os.path.realpath(code.co_filename)
        known[code] = f.startswith(OURS) and os.path.basename(f) not in ('models.py', 'utils.py')
    return known[code]


class Preempt(object):
    """Calls at(k) when the traced thread is about to execute the k-th line of the project's own code."""
    def __init__(self, line, at, main):
        self.line, self.at, self.main = line, at, main
        self.count, self.thread = 0, None

    def __call__(self, frame, event, arg):
        me = threading.current_thread()
        if (me is MAIN) != self.main or not ours(frame.f_code):
            return None
        if self.thread is None:
            self.thread = me
        return self.local if self.thread is me else None

    def local(self, frame, event, arg):
        if event == 'line':
            self.count += 1
            if self.count == self.line:
                self.at()
        return self.local


start = lambda n, ack=6: dict(a='start', n=n, ack=ack)
release = lambda n: dict(a='release', n=n)
do = lambda name: dict(a=name)
SESSIONS = [
    ([start(1), release(1), do('cbreturn')], [[do('stop')], [start(1)], [do('stop'), start(1)], [do('stop'), do('stop')]]),
    ([start(2), release(1), do('cbraise')], [[do('stop')], [start(1)], [do('stop'), start(1)]]),
    ([start(1), do('eof')], [[do('stop')], [start(1)], [do('stop'), start(1)]]),
    ([start(1), do('malformed')], [[do('stop')], [do('stop'), do('stop')]]),
    ([start(2), release(1), do('cbstop'), do('cbreturn')], [[do('stop')], [start(1)], [do('stop'), start(1)]]),
    ([start(2), do('stop'), release(1), do('cbreturn')], [[do('stop')], [start(1)], [start(2)]]),
    ([start(3), release(1), do('stop'), do('cbreturn')], [[do('stop')], [start(1)]]),
    ([start(2), release(2), do('cbreturn'), do('cbreturn')], [[do('stop')], [start(1)]]),
]


def session_paused(actions, interposed, line):
    """The session thread waits before its line-th line while the caller does interposed; whether it got that far."""
    s = Schedule('paused session')
    s.interposed = interposed

    def at():
        s.paused.set()
        s.resume.wait(1)
    p = Preempt(line, at, False)
    threading.settrace(p)
    try:
        for a in actions:
            s.act(a)
    finally:
        threading.settrace(None)
    s.resume.set()
    s.finish()
    return p.count >= line


CALLERS = [
    ([start(1), release(1)], do('stop'), [do('cbreturn')]),
    ([start(2), release(1)], do('stop'), [do('cbraise')]),
    ([start(1)], do('stop'), [do('eof')]),
    ([start(1)], do('stop'), [do('malformed')]),
    ([start(2), release(1)], do('stop'), [do('cbreturn'), release(1)]),
    ([start(3), release(2)], do('stop'), [do('cbreturn')]),
    ([start(2), release(1), do('cbstop')], do('stop'), [do('cbreturn')]),
    ([start(1), release(1)], start(1), [do('cbreturn')]),
    ([start(2), release(1)], start(1), [do('cbraise')]),
    ([start(2), release(1), do('cbstop')], start(1), [do('cbreturn')]),
    ([start(2), release(1), do('cbstop')], start(2), [do('cbreturn')]),
    ([], start(1), [release(1), do('cbreturn')]),
    ([], start(2), [release(1), do('cbraise')]),
    ([], start(2), [release(1), do('cbstop'), do('cbreturn')]),
    ([], start(1), [do('malformed')]),
    ([], start(1), [do('eof')]),
]


def caller_paused(prefix, op, meanwhile, line):
    s = Schedule('paused caller')
    for a in prefix:
        s.act(a)

    def at():
        if not prefix and not s.threads():      # the console sends packets only to a session
            return
        for a in meanwhile:
            s.act(a, settle=False)
            s.settle()
    p = Preempt(line, at, True)
    sys.settrace(p)
    try:
        s.act(op, settle=False)
    finally:
        sys.settrace(None)
    s.quiet()
    s.finish()
    return p.count >= line


RACES = [([], start(2), 'start'), ([], start(1, 21), 'start'), ([start(1)], start(1), 'start'), ([start(1)], do('stop'), 'stop'),
         ([start(1)], do('stop'), 'start'), ([], start(2), 'stop'), ([], start(2, 0), 'stop'), ([], do('stop'), 'start')]


def callers_race(prefix, op, other, line):
    """One caller waits before its line-th line while another calls."""
    s = Schedule('racing callers')
    for a in prefix:
        s.act(a)
    helpers = []

    def second():
        out = s.call(other, 2)
        s.log.append(dict(e='ret', who=2, op=other, out=out))

    def at():
        ack = 0 if s.closed else op.get('ack', 6)
        if op['a'] == 'stop':
            EMULATOR.script[:] = [dict(send=[bytes((ack,))])]
        s.log.append(dict(e='call', who=2, op=other, n=2, ack=ack))
        helpers.append(threading.Thread(target=second))
        s.others.add(helpers[0])
        helpers[0].start()
        helpers[0].join(0.06)           # it may have to wait for the first
    p = Preempt(line, at, True)
    s.racing = True
    sys.settrace(p)
    try:
        s.act(op, settle=False)
    finally:
        sys.settrace(None)
    s.racing = False
    for h in helpers:
        h.join(3)
        if h.is_alive():
            s.dead = True
            TROUBLE[0] += 1
    del EMULATOR.script[:]
    s.quiet()
    s.finish()
    return p.count >= line


with open(os.path.join(os.environ['SCRATCH'], sys.argv[1])) as f:
    behaviours = [json.loads(line) for line in f]
alphabet = sorted({json.dumps(a, sort_keys=True) for b in behaviours for a in b})
alphabet = [json.loads(a) for a in alphabet]
limit_to = 20000 if THOROUGH else 3000
if len(behaviours) > limit_to:
    behaviours = R.sample(behaviours, limit_to)
for i in range(6000 if THOROUGH else 600):
    b = [start(R.choice((2, 3, 5, 8)))]
    for _ in range(R.randrange(4, 16)):
        b.append(R.choice(alphabet) if R.random() < 0.4 else R.choice((release(1), release(2), do('cbreturn'), do('cbreturn'))))
    behaviours.append(b)
behaviours += [[start(n)] + [release(1), do('cbreturn')] * n for n in (5, 12, 30)]
behaviours += [[start(n), release(n)] + [do('cbreturn')] * n for n in (5, 12, 30)]
behaviours += [[start(2, ack), start(1)] for ack in range(256)]
for i, b in enumerate(behaviours):
    if i % SHARDS == SHARD:
        replay(b)
turn = 0
for actions, interpositions in SESSIONS:
    for interposed in interpositions:
        turn += 1
        if turn % SHARDS == SHARD:
            line = 1
            while session_paused(actions, interposed, line):
                line += 1
for prefix, op, meanwhile in CALLERS:
    turn += 1
    if turn % SHARDS == SHARD:
        line = 1
        while caller_paused(prefix, op, meanwhile, line):
            line += 1
for prefix, op, other in RACES:
    turn += 1
    if turn % SHARDS == SHARD:
        line = 1
        while callers_race(prefix, op, other, line):
            line += 1
done()
