"""values.py BEHAVIOURS OUT: replays histories of reading, changing, copying and serialising records."""
import copy
import datetime
import decimal
import enum
import io
import json
import os
import pickle
import sys

from common import THOROUGH, Hang, Trace, limit, repo_module, rng  # noqa
import codec

models = repo_module('weatherlink.models')
R = rng('values')
codec.R = R
TRACE = Trace(sys.argv[2])
SLOTS = 3
NAMES = ['wind_speed', 'inner', 'date', 'temperature_outside', '_private', 'record_type', 'a', 'Zz9', 'name with space']
CLASSES = ['RecordDict', 'ArchiveIntervalRecord', 'LoopRecord', 'DailySummary']
LEAF = lambda text: dict(cls='', text=text, items=[])
FREE = dict(cls='-', text='', items=[])
NOTHING = LEAF('None')
D = decimal.Decimal


def text(v):
    if v is None:
        return 'None'
    t = type(v)
    if isinstance(v, enum.Enum):
        return 'E:%s.%s' % (t.__name__, v.name) + ('' if t[v.name] is v else '!')
    if t in (bool, int, str):
        return '%s:%s' % (t.__name__[0].upper() if t is not str else 's', v)
    if t is bytes:
        return 'b:' + v.hex()
    if t in (datetime.datetime, datetime.date):
        return 'd:' + v.isoformat()
    return '%s:%r' % (t.__name__, v)


def is_record(v):
    return isinstance(v, dict)


def view(v, depth=0):
    """The record as its items show it."""
    if depth > 8:
        return LEAF('deep')
    if is_record(v):
        return dict(cls=type(v).__name__, text='', items=[dict(n=str(n), v=view(dict.__getitem__(v, n), depth + 1)) for n in dict.keys(v)])
    if isinstance(v, list):
        return dict(cls='list', text='', items=[dict(n=str(n), v=view(x, depth + 1)) for n, x in enumerate(v)])
    return LEAF(text(v))


def differ(v, depth=0):
    """Names whose attribute is not their item."""
    names = []
    if is_record(v) and depth < 8:
        for n in list(dict.keys(v)):
            try:
                same = getattr(v, n) is v[n] and v.get(n) is v[n] and n in v and hasattr(v, n)
            except Exception:
                same = False
            names += ([] if same else [str(n)]) + differ(dict.__getitem__(v, n), depth + 1)
        if len(list(v)) != len(v) or list(v.keys()) != list(v) or [k for k, _ in v.items()] != list(v):
            names.append('*')
    elif isinstance(v, list):
        for x in v:
            names += differ(x, depth + 1)
    return names


def reaches(v, o):
    return v is o or (is_record(v) and any(reaches(x, o) for x in dict.values(v))) or (isinstance(v, list) and any(reaches(x, o) for x in v))


VALUES = [None, 0, 8, -3, True, False, D('12.5'), D('0.0'), '', 'text', b'\x00\xff', 2.5, datetime.datetime(2016, 2, 29, 23, 59),
          datetime.date(2000, 1, 1), models.WindDirection.NNW, models.BarometricTrend.steady, models.RainCollectorTypeDatabase.inches_0_01,
          models.RainCollectorTypeSerial.millimeters_0_2]
BY_TEXT = {text(v): v for v in VALUES}
BY_TEXT.update({'I:%d' % k: k for k in range(10)})


def decoded():
    k = R.randrange(5)
    if k == 0:
        return models.LoopRecord.load_loop_2_from_connection(io.BytesIO(codec.loop2_base()))
    if k == 1:
        for _ in range(50):
            r = models.ArchiveIntervalRecord.load_from_download(io.BytesIO(codec.download_base()), 5)
            if r:
                return r
    if k == 2:
        for _ in range(50):
            try:
                return models.ArchiveIntervalRecord.load_from_wlk(io.BytesIO(codec.wlk_base()), 2016, 4, 3)
            except Exception:
                pass
    if k == 3:
        for _ in range(50):
            try:
                return models.DailySummary.load_from_wlk(io.BytesIO(codec.summary_base()), 2016, 4, 3)
            except Exception:
                pass
    return models.Header.load_from_wlk(io.BytesIO(codec.header_bytes([R.randrange(300) for _ in range(32)])))


class History(object):
    def __init__(self):
        self.slots, self.steps = [None] * SLOTS, []

    def at(self, k):
        return self.slots[k - 1]

    def note(self, e, out, value):
        self.steps.append(dict(
            e, out=out, val=view(value), views=[FREE if v is None else view(v) for v in self.slots],
            same=[[i + 1, j + 1] for i in range(SLOTS) for j in range(i + 1, SLOTS) if self.slots[i] is not None and self.slots[i] is self.slots[j]],
            equal=[[i + 1, j + 1] for i in range(SLOTS) for j in range(i + 1, SLOTS)
                   if is_record(self.slots[i]) and is_record(self.slots[j]) and self.slots[i] == self.slots[j] and not self.slots[i] != self.slots[j]
                   or isinstance(self.slots[i], list) and isinstance(self.slots[j], list) and self.slots[i] == self.slots[j]],
            differ=[n for v in self.slots for n in differ(v)][:5]))

    def act(self, op, slot=1, name='', how='', text='', start=0, to=0, tree=None):
        """Whether it was possible."""
        e = dict(op=op, slot=slot, name=name, how=how, text=text, to=to, tree=tree or FREE)
        e['from'] = start
        r = self.at(slot)
        if op != 'new':
            if r is None or isinstance(r, list) and (op not in ('inner', 'copy') or how == 'construct'):
                return False
            if op == 'put' and start and (self.at(start) is None or reaches(self.at(start), r)):
                return False
            if how == 'construct' and type(r).__name__ not in CLASSES:
                return False
        out, value = 'ok', None
        try:
            with limit(5):
                if op == 'new':
                    self.slots[slot - 1] = None
                    self.slots[slot - 1] = self.make(tree, how)
                elif op == 'put':
                    v = self.at(start) if start else BY_TEXT[text]
                    if how == 'attr':
                        setattr(r, name, v)
                    elif how == 'item':
                        r[name] = v
                    elif how == 'update':
                        R.choice((lambda: r.update({name: v}), lambda: r.update([(name, v)]), lambda: r.update(**{name: v})))()
                    else:
                        value = r.setdefault(name, v)
                elif op == 'drop':
                    if how == 'item':
                        del r[name]
                    else:
                        value = r.pop(name) if how == 'pop' else r.pop(name, 'default')
                elif op == 'get':
                    value = {'attr': lambda: getattr(r, name), 'item': lambda: r[name], 'get': lambda: r.get(name),
                             'default': lambda: getattr(r, name, 'default'), 'hasattr': lambda: hasattr(r, name), 'in': lambda: name in r}[how]()
                elif op == 'copy':
                    self.slots[to - 1] = (
                        copy.copy(r) if how == 'copy' else copy.deepcopy(r) if how == 'deepcopy' else type(r)(r) if how == 'construct' else
                        pickle.loads(pickle.dumps(r, R.randrange(0, pickle.HIGHEST_PROTOCOL + 1))))
                elif op == 'inner':
                    v = r[int(name)] if isinstance(r, list) and name.isdigit() and int(name) < len(r) else r.get(name) if is_record(r) else None
                    if is_record(v) or isinstance(v, list):
                        self.slots[to - 1] = v
        except Hang:
            out = 'hang'
        except Exception as x:
            out = next((c.__name__ for c in type(x).__mro__ if c.__name__ in ('KeyError', 'AttributeError')), type(x).__name__)
        self.note(e, out, value)
        return True

    def make(self, tree, how):
        pairs = [(i['n'], BY_TEXT[i['v']['text']]) for i in tree['items']]
        cls = getattr(models, tree['cls'])
        return cls(**dict(pairs)) if how == 'kwargs' else cls(dict(pairs)) if how == 'dict' else cls(pairs)

    def decoded(self, slot):
        r = decoded()
        self.slots[slot - 1] = r
        e = dict(op='new', slot=slot, name='', how='decoded', text='', to=0, tree=view(r))
        e['from'] = 0
        self.note(e, 'ok', None)

    def new(self, slot, cls=None, contents=None, how=None):
        contents = contents or [(n, text(R.choice(VALUES))) for n in R.sample(NAMES[:-1], R.randrange(0, 4))]
        self.act('new', slot, how=how or R.choice(('kwargs', 'dict', 'pairs')),
                 tree=dict(cls=cls or R.choice(CLASSES), text='', items=[dict(n=n, v=LEAF(t)) for n, t in contents]))

    def probe(self, names):
        for k in range(1, SLOTS + 1):
            for n in names:
                for how in ('attr', 'item', 'get', 'default', 'hasattr', 'in'):
                    if R.random() < 0.5:
                        self.act('get', k, n, how)

    def end(self):
        TRACE.case(n=len(self.steps), slots=SLOTS, steps=self.steps)


def names_of(r):
    return [str(n) for n in range(len(r))] if isinstance(r, list) else list(dict.keys(r)) if is_record(r) else []


with open(os.path.join(os.environ['SCRATCH'], sys.argv[1])) as f:
    behaviours = [json.loads(line) for line in f]
many = 12000 if THOROUGH else 1500
for b in R.sample(behaviours, min(many, len(behaviours))):
    h = History()
    h.new(1, 'LoopRecord', [('wind_speed', 'I:1')])
    h.new(2, 'ArchiveIntervalRecord', [('wind_speed', 'I:2')])
    for a in b:
        if a['op'] == 'new':
            h.new(a['slot'], 'LoopRecord', [('wind_speed', 'I:7')], 'kwargs')
        else:
            h.act(a['op'], a['slot'], a['name'], a['how'], a['text'], a['from'], a['to'])
    h.probe(('wind_speed', 'inner'))
    h.end()
for _ in range(3000 if THOROUGH else 500):
    h = History()
    real = R.random() < 0.2
    h.decoded(1) if real else h.new(1)
    for _ in range(R.randrange(3, 8) if real else R.randrange(4, 25)):
        k = R.randrange(1, SLOTS + 1)
        known = names_of(h.at(k))
        name = R.choice(known) if known and R.random() < 0.6 else R.choice(NAMES)
        what = R.random()
        if what < 0.08:
            h.new(k)
        elif what < 0.12 and real:
            h.decoded(k)
        elif what < 0.45:
            how = R.choice(('attr', 'item', 'update', 'setdefault'))
            h.act('put', k, name, how, text(R.choice(VALUES)), R.choice((0, 0, 1, 2, 3)))
        elif what < 0.58:
            h.act('drop', k, name, R.choice(('item', 'pop', 'popdefault')))
        elif what < 0.7:
            h.act('get', k, name, R.choice(('attr', 'item', 'get', 'default', 'hasattr', 'in')))
        elif what < 0.9:
            h.act('copy', k, how=R.choice(('copy', 'deepcopy', 'pickle', 'construct')), to=R.randrange(1, SLOTS + 1))
        else:
            nested = [n for n in known if is_record(h.at(k)[n if is_record(h.at(k)) else int(n)]) or isinstance(h.at(k)[n if is_record(h.at(k)) else int(n)], list)]
            h.act('inner', k, R.choice(nested) if nested else name, to=R.randrange(1, SLOTS + 1))
    h.probe(R.sample(NAMES, 2))
    h.end()
TRACE.close()
