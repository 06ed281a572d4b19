"""download.py BEHAVIOURS OUT: downloads from an emulated web service."""
import datetime
import json
import os
import sys

from common import BAD, THOROUGH, Hang, Trace, halves, limit, num, repo_module, rng
import codec
import transport
from transport import answer, codes

downloader = repo_module('weatherlink.downloader')
models = repo_module('weatherlink.models')
TRACE = Trace(sys.argv[2])
R = rng('download')
codec.R = R
transport.install()
WORDS = ['user', 'p&ss=word', 'a b+c%20d', '/?#[]@!$', "'();:,~-._", 'ünïcødé', '日本', '100%', '%41', '+', '&action=data', '\U0001f327', 'x' * 200, '"<>\\^`{|}', 'tab\tnl\n']
DOWNLOAD = codec.DOWNLOAD


def word():
    return R.choice(WORDS) if R.random() < 0.6 else ''.join(chr(R.choice((R.randrange(32, 127), R.randrange(32, 127), R.randrange(160, 0x800))))
                                                             for _ in range(R.randrange(1, 20)))


def moment():
    if R.random() < 0.25:
        n = R.choice((0, 1, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, R.randrange(2 ** 32)))
        return n, dict(kind='number', stamp=halves(n), date=[0])
    d = datetime.datetime(R.choice((2000, 2016, 2063, 2064, 2127, R.randrange(2000, 2128))), R.randrange(1, 13), R.randrange(1, 29),
                          R.randrange(24), R.randrange(60), R.choice((0, 59)))
    return d, dict(kind='date', stamp=[0, 0], date=[d.year, d.month, d.day, d.hour, d.minute])


def record(kind):
    b = codec.download_base()
    if kind == 'empty':
        return codec.put(b, 0, R.choice((b'\0\0', b'\xff\xff', b'\0\x80', bytes((R.randrange(256), 128 + R.randrange(128))))))
    if kind == 'foreign':
        return codec.put(b, 42, bytes((R.choice((255, 1, 128)),)))
    return b


def header_text(model, version, interval, count, maximum):
    lines = [('ConsoleVer', version), ('ArchiveInt', interval), ('Records', count), ('MaxRecords', maximum)]
    if model is not None:
        lines.append(('Model', model))
    if R.random() < 0.4:
        lines.append((R.choice(('Station', 'Note', 'A')), R.choice(('', 'a=b', '=', 'Model=16'))))
    R.shuffle(lines)
    sep = R.choice(('\n', '\r\n'))
    space = lambda: R.choice(('', '', ' ', '  '))
    return sep.join('%s%s=%s%s%s' % (k, space(), space(), v, space()) for k, v in lines) + R.choice(('', sep))


def announced(d):
    return [d.console_version, d.record_minute_span, d.record_count, d.max_account_records]


def copied(r):
    return dict(r) if isinstance(r, dict) else r


def without(k, nothing):
    """A downloader that lacks one of the three is refused."""
    given = [word(), word(), word()]
    given[k] = nothing
    try:
        downloader.Downloader(*given)
        return 'ok'
    except Exception as e:
        return type(e).__name__


def run(shapes):
    user, password, token = word(), word(), word()
    d = downloader.Downloader(user, password, token)
    steps = []
    before, old, said = d.records, [], announced(d)
    for shape in shapes:
        argument, start = moment()
        head, data = shape['head'], shape['data']
        model = {'model': R.choice(('15', '17', '6', '116', '161', '0', '')), 'nomodel': None}.get(head, '16')
        interval, maximum = R.choice((1, 5, 10, 15, 30, 60, 120)), R.choice((0, 2560, 10000000))
        version = R.choice(('Apr 16 2008', 'a=b', 'May 1 2012', 'x', '1.90', '"quoted"', "'q'", 'v(1)', 'AUG 5'))
        count = shape['count']
        type1 = {'charset': 'text/html; charset=UTF-8', 'octet': 'application/octet-stream', 'plain': 'text/plain', 'fail': 'none'}.get(head, 'text/html')
        body = b''.join(record(k) for k in shape['body'])
        if shape['cut'] and body:
            body = body[:len(body) - R.choice((1, 51, R.randrange(1, 52)))]
        elif len(shape['body']) >= count and R.random() < 0.5:
            body += record('record') + record('record')[:R.randrange(52)]
        type2 = {'html': R.choice(('text/html', 'text/plain', 'application/octet-stream; x=y')), 'fail': 'none'}.get(data, 'application/octet-stream')
        cte = R.choice(('base64', '7bit', 'quoted-printable')) if data == 'cte' else 'binary'
        ce = [data] if data in ('identity', 'br', 'compress', 'deflate', 'gzip') else []
        headers = {'Content-Type': type2, 'Content-Transfer-Encoding': cte}
        if ce:
            headers['Content-Encoding'] = ce[0]
        if R.random() < 0.3:
            headers = {k.lower(): v for k, v in headers.items()}
        del transport.LOG[:]
        failure = transport.requests.exceptions.ConnectionError
        transport.ANSWERS[:] = [
            failure('x') if head == 'fail' else answer(200, {'Content-Type': type1}, header_text(model, version, interval, count, maximum).encode()),
            failure('x') if data == 'fail' else answer(200, headers, body)]
        undisturbed = d.records is before and announced(d) == said      # since the last download
        try:
            with limit(6):
                d.download(argument)
            out = 'ok'
        except Hang:
            out = 'Hang'
        except Exception:
            out = 'error'
        requests = []
        for r in transport.LOG:
            u, method, parameters = transport.split(r)
            names = [k for k, _ in parameters]
            p = dict(parameters)
            stamp = p.get('timestamp', '')
            requests.append(dict(method=method, scheme=u.scheme, host=u.netloc, path=u.path, user=codes(p.get('user', '')),
                                 **{'pass': codes(p.get('pass', ''))}, token=codes(p.get('apiToken', '')), action=p.get('action', ''),
                                 timestamp=halves(int(stamp)) if stamp.isdigit() and str(int(stamp)) == stamp else [BAD, BAD],
                                 others=len(names) - len({'user', 'pass', 'apiToken', 'action', 'timestamp'} & set(names))))
        steps.append({
            'from': start, 'requests': requests, 'out': out, 'used': bool(d.records) and d.records is not before,
            'kept': undisturbed and (before is None or len(before) == len(old) and all(x is r and copied(x) == was for x, (r, was) in zip(before, old))),
            'first': dict(type=type1, model=model or '', version=version, interval=interval, count=count, max=maximum),
            'second': dict(type=type2, cte=cte, ce=ce, body=list(body)),
            'records': [codec.encode_interval(r, DOWNLOAD) for r in (d.records if isinstance(d.records, (list, tuple)) else [None])] if out == 'ok' else [],
            'announced': [d.console_version, num(d.record_minute_span), num(d.record_count), num(d.max_account_records)] if out == 'ok' else []})
        before, old, said = d.records, [(r, copied(r)) for r in d.records or ()], announced(d)
        yield
    TRACE.case(n=len(steps), user=codes(user), **{'pass': codes(password)}, token=codes(token),
               incomplete=without(R.randrange(3), R.choice(('', None))), steps=steps)


def case(shapes):
    for _ in run(shapes):
        pass


with open(os.path.join(os.environ['SCRATCH'], sys.argv[1])) as f:
    behaviours = [json.loads(line) for line in f]
shapes = [s for b in behaviours for s in b]
if len(behaviours) > 12000:
    behaviours = R.sample(behaviours, 12000)
for b in behaviours:
    case(b)
good = [s for s in shapes if s['head'] == 'good' and s['data'] == 'good']
for _ in range(3000 if THOROUGH else 500):
    case([R.choice(R.choice((good, shapes))) for _ in range(R.randrange(2, 5))])
for _ in range(300 if THOROUGH else 60):        # two downloaders, taking turns
    turns = [run([R.choice(R.choice((good, good, shapes))) for _ in range(4)]) for _ in range(2)]
    while turns:
        t = R.choice(turns)
        if next(t, t) is t:
            turns.remove(t)
for n in (10, 40, 100) + ((1000, 2560) if THOROUGH else ()):
    full = dict(head='good', data='good', body=['record'] * n, count=n, cut=False)
    case([full])
    case([dict(full, count=n + 1)])
    case([dict(full, body=['record'] * (n - 1) + ['empty'])])
case([dict(head='good', data='good', body=['record'] * 1300, count=1300, cut=False)])
for w in WORDS:
    for _ in range(3):
        WORDS_saved = WORDS[:]
        WORDS[:] = [w]
        case([R.choice(good)])
        WORDS[:] = WORDS_saved
TRACE.close()
