"""One update sent by a real exporter through the emulated transport, and what went out.  Judges nothing."""
import datetime
import threading
from decimal import Decimal

from common import BAD, Hang, limit, num
import transport
import zones
from transport import answer, codes

FIXED = {'action': ['updateraw'], 'softwaretype': ['WeatherLink']}


def parameter(text):
    try:
        return num(Decimal(text), 3)
    except Exception:
        return BAD


def update(exporter, kind, record, status, text, failed=None):
    """status 0: there is no answer.  failed: a list that gets the exception."""
    d = record['date']
    step = dict(kind=kind, answer=dict(status=status, text=text), date=[d.year, d.month, d.day, d.hour, d.minute, d.second], method='', host='',
                path='', fixed=False, id=[], password=[], parameters={}, utc=BAD, seconds=BAD)
    del transport.LOG[:]
    transport.ANSWERS[:] = [transport.requests.exceptions.ConnectionError('x') if not status else
                            answer(status, {'Content-Type': 'text/plain; charset=utf-8'}, text.encode('utf-8'))]
    send = exporter.send_simple_update if kind == 'simple' else exporter.send_rapid_update
    try:
        if threading.current_thread() is threading.main_thread():
            with limit(6):
                send(record)
        else:
            send(record)
        step['out'] = 'ok'
    except Hang:
        step['out'] = 'Hang'
    except Exception as e:
        step['out'] = 'error'
        if failed is not None:
            failed.append(e)
    step['requests'] = len(transport.LOG)
    if transport.LOG:
        u, method, pairs = transport.split(transport.LOG[0])
        parameters = {}
        for k, v in pairs:
            parameters.setdefault(k, []).append(v)
        step.update(method=method, host=u.netloc, path=u.path,
                    fixed=u.scheme in ('http', 'https') and all(parameters.pop(k, None) == v for k, v in FIXED.items()),
                    id=codes(''.join(parameters.pop('ID', []))), password=codes(''.join(parameters.pop('PASSWORD', []))))
        try:
            t = datetime.datetime.strptime(','.join(parameters.pop('dateutc', [])), '%Y-%m-%d %H:%M:%S')
            step.update(utc=zones.minute(t), seconds=t.second)
        except ValueError:
            pass
        step['parameters'] = {k: [parameter(x) for x in v] for k, v in parameters.items()}
    return step
