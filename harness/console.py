"""A console on the loopback network, and accounting of every socket the code under test opens.

The emulator's reactions are scripted by the driver; it never judges.  Reaction to the next command line:
    dict(send=[bytes, ...], close=bool, accept=bool)
pieces to send (in separate segments), then optionally close the connection; accept: the command goes through.
An accepted EEBWR is followed by its value and checksum, which are not taken for a command.
"""
import socket
import threading
import time

REAL = socket.socket
OPEN = []               # sockets made by the code under test, kept alive so that only close() closes them
FAULTS = {}             # what happens to the next calls: see Tracked
PORTS = []              # the ports of all attempts to connect
ROUTES = {}             # other ports to use instead
LIMITS = []             # sizes the next receives are limited to (cycled); empty: unlimited
COUNTS = {'sent': 0, 'taken': 0, 'read': 0, 'pushed': 0}


def injected(tag, cls=OSError, *args):
    e = cls(*args) if args else cls(tag)
    e.verif_tag = tag
    return e


class Tracked(REAL):
    refuse_address = None
    after_send = None
    blocked = 0             # threads inside a receive with nothing to read
    lock = threading.Lock()

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        if fileno is None:
            f = FAULTS.pop('create', None)
            if f is not None:
                raise f
        REAL.__init__(self, family, type, proto, fileno)
        self.verif_step = 0
        if fileno is None:
            OPEN.append(self)

    def connect(self, address):
        PORTS.append(address[1] if isinstance(address, tuple) and isinstance(address[1], int) else -1)
        if PORTS[-1] in ROUTES:
            address = (address[0], ROUTES[PORTS[-1]]) + tuple(address[2:])
        f = FAULTS.pop('connect', None)
        if f == 'refused':
            address = Tracked.refuse_address
        elif f is not None:
            if getattr(f, 'verif_after', False):
                REAL.connect(self, address)
            raise f
        REAL.connect(self, address)
        self.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)      # only makes the checks faster

    def close(self):
        first = not self._closed
        REAL.close(self)
        if first:
            f = FAULTS.pop('close', None)
            if f is not None:
                raise f

    def _size(self, n):
        if not LIMITS:
            return n
        self.verif_step += 1
        return max(1, min(n, LIMITS[self.verif_step % len(LIMITS)]))

    def _receive(self, call):
        with Tracked.lock:
            Tracked.blocked += 1
        try:
            return call()
        finally:
            with Tracked.lock:
                Tracked.blocked -= 1

    def recv(self, n, *flags):
        data = self._receive(lambda: REAL.recv(self, n if flags else self._size(n), *flags))
        COUNTS['read'] += len(data)
        return data

    def recv_into(self, buffer, nbytes=0, *flags):
        size = nbytes or len(buffer)
        size = size if flags else self._size(size)
        n = self._receive(lambda: REAL.recv_into(self, buffer, size, *flags))
        COUNTS['read'] += n
        return n

    def send(self, data, *flags):       # as a full buffer would have it, takes only a part of longer data
        self.verif_step += 1
        n = REAL.send(self, memoryview(data).cast('B')[:(2, 7, 1, 64)[self.verif_step % 4]], *flags)
        COUNTS['sent'] += n
        if Tracked.after_send:
            Tracked.after_send()
        return n

    def sendall(self, data, *flags):
        REAL.sendall(self, data, *flags)
        COUNTS['sent'] += len(memoryview(data).tobytes())
        if Tracked.after_send:
            Tracked.after_send()


def install():
    """Patches socket.socket; returns nothing.  The address nobody listens on refuses connections."""
    closed = REAL(socket.AF_INET, socket.SOCK_STREAM)
    closed.bind(('127.0.0.1', 0))
    Tracked.refuse_address = closed.getsockname()
    Tracked.refuse_socket = closed
    socket.socket = Tracked


def open_sockets():
    return sum(1 for s in OPEN if s.fileno() != -1)


def forget():
    """Closes and forgets everything the code under test left open."""
    FAULTS.clear()
    del LIMITS[:]
    for s in OPEN:
        try:
            s._io_refs = 0
            REAL.close(s)
        except OSError:
            pass
    del OPEN[:]


class Console(object):
    """Has no thread of its own: whenever the code under test sends something, the same thread lets the console react."""
    def __init__(self):
        self.listener = REAL(socket.AF_INET, socket.SOCK_STREAM)
        self.listener.bind(('127.0.0.1', 0))
        self.listener.listen(64)
        self.listener.setblocking(False)
        self.host, self.port = self.listener.getsockname()
        self.lock = threading.RLock()
        self.received = bytearray()
        self.script = []
        self.connection = None
        self.line = b''
        self.value_bytes = 0
        self.connections = 0
        self.at_reaction = None             # called after every reaction
        Tracked.after_send = self.pump

    def accept(self):
        """The newest connection counts; returns whether there is one."""
        while True:
            try:
                connection, _ = REAL.accept(self.listener)
            except BlockingIOError:
                return self.connection is not None
            connection.setblocking(False)
            connection.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if self.connection is not None:
                REAL.close(self.connection)
            self.connection = connection
            self.connections += 1
            self.line, self.value_bytes = b'', 0

    def pump(self):
        """Takes everything sent so far."""
        with self.lock:
            deadline = time.time() + 2
            self.accept()
            while COUNTS['taken'] < COUNTS['sent'] and time.time() < deadline and self.connection is not None:
                try:
                    data = REAL.recv(self.connection, 65536)
                except BlockingIOError:
                    time.sleep(0.0002)
                    continue
                except OSError:
                    data = b''
                if not data:
                    return
                COUNTS['taken'] += len(data)
                for x in data:
                    self._byte(x)

    def _byte(self, x):
        self.received.append(x)
        if self.value_bytes:
            self.value_bytes -= 1
            return
        if x == 13:                     # cancels what the console is doing
            self.line = b''
            return
        self.line += bytes((x,))
        if x == 10:
            line, self.line = self.line, b''
            reaction = self.script.pop(0) if self.script else dict(send=[])
            if line.startswith(b'EEBWR ') and reaction.get('accept'):
                try:
                    self.value_bytes = int(line.split()[2], 16) + 2
                except (ValueError, IndexError):
                    pass
            self._send(reaction)

    def _send(self, reaction):
        try:
            for piece in reaction['send']:
                self.connection.setblocking(True)
                COUNTS['pushed'] += len(piece)
                REAL.sendall(self.connection, piece)
                self.connection.setblocking(False)
            if reaction.get('close'):
                self.connection.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def push(self, data=b'', close=False):
        """Sends on the current connection without being asked."""
        with self.lock:
            if self.accept():
                self._send(dict(send=[data] if data else [], close=close))

    def drain(self):
        """Everything the code sent since the last call."""
        with self.lock:
            self.pump()
            data = list(self.received)
            del self.received[:]
            return data
