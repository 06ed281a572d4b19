"""link.py BEHAVIOURS... OUT: replays histories of connect / disconnect / with blocks on one or two real communicators."""
import json
import os
import sys

from common import BAD, SEED, THOROUGH, Hang, Trace, limit, repo_module, rng  # noqa
import console
from console import injected

serial = repo_module('weatherlink.serial')
poller = repo_module('weatherlink.poller')
TRACE = Trace(sys.argv[-1])
R = rng('link')

import socket  # noqa
console.install()


class Listener(object):
    """Accepts connections (in its backlog) and forgets them between histories; needs no thread."""
    def __init__(self):
        self.socket = console.REAL(socket.AF_INET, socket.SOCK_STREAM)
        self.socket.bind(('127.0.0.1', 0))
        self.socket.listen(128)
        self.socket.setblocking(False)
        self.host, self.port = self.socket.getsockname()

    def forget(self):
        while True:
            try:
                console.REAL.accept(self.socket)[0].close()
            except BlockingIOError:
                return


LISTENERS = [Listener(), Listener()]
console.ROUTES[22222] = LISTENERS[0].port


class Interrupt(KeyboardInterrupt):
    pass


def connect_fault(name):
    if name == 'create':
        console.FAULTS['create'] = injected('create', R.choice((OSError, PermissionError, socket.gaierror)))
    elif name == 'connect':
        console.FAULTS['connect'] = injected('connect', R.choice((socket.timeout, OSError, ConnectionResetError)))
    elif name == 'refused':
        console.FAULTS['connect'] = 'refused'
    elif name == 'connected_then':
        e = injected('connected_then', R.choice((OSError, ConnectionResetError)))
        e.verif_after = True
        console.FAULTS['connect'] = e
    elif name == 'interrupt':
        e = Interrupt('interrupt')
        e.verif_tag = 'interrupt'
        e.verif_after = R.random() < 0.5
        console.FAULTS['connect'] = e


def name_of(e):
    tag = getattr(e, 'verif_tag', None)
    if tag:
        return tag
    if isinstance(e, ConnectionRefusedError):
        return 'refused'
    return type(e).__name__


def run(events):
    ports = [R.choice((l.port, l.port, 22222)) for l in LISTENERS]      # the latter is where a WeatherLinkIP listens
    communicators = [poller.IPPoller('127.0.0.1') if p == 22222 else R.choice((poller.IPPoller, serial.SerialIPCommunicator))('127.0.0.1', p)
                     for p in ports]
    recorded = []
    for e in events:
        communicator, other = communicators[e['who'] - 1], communicators[2 - e['who']]
        console.FAULTS.clear()
        del console.PORTS[:]
        connect_fault(e['fault'])
        if e['closefault']:
            console.FAULTS['close'] = injected('close', R.choice((OSError, ConnectionResetError)))
        in_body = [BAD]
        try:
            with limit(10):
                if e['k'] == 'connect':
                    communicator.connect()
                elif e['k'] == 'disconnect':
                    communicator.disconnect()
                else:
                    with communicator:
                        in_body[0] = console.open_sockets()
                        for step in e['body']:
                            if step == 'raise':
                                raise injected('body', R.choice((IOError, ValueError, RuntimeError)))
                            if step == 'raise_base':
                                x = R.choice((SystemExit, Interrupt, GeneratorExit))('x')
                                x.verif_tag = 'body_base'
                                raise x
                            getattr(other if step.startswith('other') else communicator, step.split('_')[-1])()
            out = 'ok'
        except Hang:
            out = 'hang'
        except BaseException as x:
            out = name_of(x)
        recorded.append(dict(who=e['who'], k=e['k'], fault=e['fault'], closefault=bool(e['closefault']), body=e['body'], out=out,
                             open=console.open_sockets(), in_body=in_body[0], ports=list(console.PORTS)))
    TRACE.case(n=len(recorded), ports=ports, events=recorded)
    console.forget()
    for l in LISTENERS:
        l.forget()


# after every history: what state the communicators are really in
def probe(who):
    return [dict(who=who, k=k, fault='none', closefault=False, body=[]) for k in ('disconnect', 'connect', 'connect')]


behaviours = []
for name in sys.argv[1:-1]:
    with open(os.path.join(os.environ['SCRATCH'], name)) as f:
        behaviours += [json.loads(line) for line in f]
for b in behaviours:
    run(b)
    if R.random() < 0.25:
        run(b + probe(R.choice((1, 2))))
alphabet = [e for b in behaviours for e in b]
for _ in range(3000 if THOROUGH else 500):
    run([R.choice(alphabet) for _ in range(R.randrange(3, 12))] + probe(1) + probe(2))
TRACE.close()
os._exit(0)
