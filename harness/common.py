"""Shared by all drivers.  A driver runs the code of /repo and writes one JSON object per line ("case") to a trace file;
it never judges: the TLA+ specification does, in TLC.  Encoding rules (TLC integers are 32-bit and typed equality is strict):
  * an optional value is [] or [v];  numbers are scaled integers;  anything that does not fit is BAD
  * 32-bit and larger numbers are split into 16-bit halves;  byte strings are lists of 0..255
"""
import datetime
import decimal
import json
import os
import random
import signal
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

BAD = -2000000007
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = TIER == 'thorough'


def rng(name):
    return random.Random('%s/%s' % (name, SEED))


class Hang(BaseException):
    count = 0


def _escaped(kind, value, trace):
    """An exception of the code under test where a driver relies on there being none: exit status 3, "it cannot even be driven"."""
    import traceback
    traceback.print_exception(kind, value, trace)
    files = []
    while trace is not None:
        files.append(os.path.realpath(trace.tb_frame.f_code.co_filename))
        trace = trace.tb_next
    here, there = os.path.dirname(os.path.realpath(__file__)), os.path.realpath(REPO)
    mine = [f.startswith(there + os.sep) for f in files if f.startswith((here + os.sep, there + os.sep))]
    unbuilt = isinstance(value, SyntaxError) and os.path.realpath(value.filename or '').startswith(there + os.sep)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(3 if unbuilt or (mine and mine[-1]) else 1)


sys.excepthook = _escaped


def _stuck(*_):
    raise Hang()


signal.signal(signal.SIGUSR1, _stuck)       # sent by bin/check when a driver takes far too long


class limit(object):
    """Turns an endless call in the main thread into the outcome 'hang'."""
    def __init__(self, seconds):
        self.seconds = seconds

    def _fire(self, *_):
        Hang.count += 1
        raise Hang()

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self._fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 1)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def outcome(function, *args, **kwargs):
    """Calls function: ('ok', value) or (exception class name, exception) or ('hang', None)."""
    seconds = kwargs.pop('_limit', 20)
    try:
        with limit(seconds):
            return 'ok', function(*args, **kwargs)
    except Hang:
        return 'hang', None
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        return type(e).__name__, e


def is_a(exception, name):
    return isinstance(exception, BaseException) and any(c.__name__ == name for c in type(exception).__mro__)


def num(v, places=0):
    """The number scaled by 10**places as an int, or BAD when it is not a number with that many places."""
    if isinstance(v, bool) or v is None:
        return BAD
    try:
        if isinstance(v, float):
            d = decimal.Decimal(repr(v))
        else:
            d = decimal.Decimal(v)
        d = d.scaleb(places)
        i = int(d)
        if d != i or abs(i) >= 2 ** 31 - 1:
            return BAD
        return i
    except Exception:
        return BAD


def opt(v, f=num, *args):
    return [] if v is None else [f(v, *args)]


def onum(v, places=0):
    return [] if v is None else [num(v, places)]


DIRECTIONS = ['N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW', 'NW', 'NNW']


def direction(v):
    """A WindDirection (or its name) as 0..15."""
    name = getattr(v, 'name', v)
    return DIRECTIONS.index(name) if name in DIRECTIONS else BAD


def odirection(v):
    return [] if v is None else [direction(v)]


def dt(v):
    """A date-time to the minute as [y, m, d, h, min] (BAD with seconds)."""
    if not isinstance(v, datetime.datetime):
        return [BAD] * 5
    if v.second or v.microsecond:
        return [BAD] * 5
    return [v.year, v.month, v.day, v.hour, v.minute]


def odt(v):
    return [] if v is None else [dt(v)]


def halves(n):
    if not isinstance(n, int) or n < 0 or n >= 2 ** 47:
        return [BAD, BAD]
    return [n >> 16, n & 0xFFFF]


def get(record, key):
    """record[key] with a missing key told apart from None."""
    try:
        return record[key]
    except Exception:
        return BAD


class Trace(object):
    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0

    def case(self, **kw):
        self.f.write(json.dumps(kw, separators=(',', ':')) + '\n')
        self.n += 1
        if Hang.count >= 3:     # they have been recorded; no need to wait for all the others
            self.f.close()
            os._exit(0)

    def close(self):
        self.f.close()


def repo_module(name):
    """Imports a module of the code under test; an import failure is an outcome the check must report."""
    import importlib
    m = importlib.import_module(name)
    if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO)):
        raise SystemExit('%s comes from %s' % (name, m.__file__))
    return m
