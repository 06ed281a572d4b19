"""derived.py window|derive OUT: the 10-minute wind maximum and the derived values of records."""
import datetime
import decimal
import itertools
import sys

from common import BAD, THOROUGH, Trace, direction, num, outcome, repo_module, rng  # noqa
from numbers24 import big

utils = repo_module('weatherlink.utils')
models = repo_module('weatherlink.models')
WHAT = sys.argv[1]
TRACE = Trace(sys.argv[2])
R = rng('derived-' + WHAT)
D = decimal.Decimal
BASE = datetime.datetime(2016, 3, 13)
POINTS = list(models.WindDirection)


def window():
    def case(recs):
        """recs: (speed in tenths or None, direction or None, end minute, hundredths of minutes covered)"""
        arguments = []
        for s, d, e, m in recs:
            arguments.append((
                None if s is None else D(s) / 10, None if d is None else POINTS[d], BASE + datetime.timedelta(minutes=e),
                m // 100 if m % 100 == 0 and R.random() < 0.8 else D(m) / 100 if R.random() < 0.5 else m / 100.0))
        if R.random() < 0.5:
            arguments = tuple(arguments)
        out, v = outcome(utils.calculate_10_minute_wind_average, arguments)
        if out != 'ok' or len(v) != 4:
            r = [[BAD]] * 4
        else:
            def minute(x):
                return [] if x is None else [num((x - BASE).total_seconds() / 60) if isinstance(x, datetime.datetime) else BAD]
            none = v[0] is None
            r = [[] if v[0] is None else [num(v[0], 2)],
                 ([] if v[1] is None else [BAD]) if none else [[] if v[1] is None else [direction(v[1])]],
                 minute(v[2]), minute(v[3])]
        TRACE.case(op='window', r=r, recs=[dict(s=[] if s is None else [s], d=[] if d is None else [d], e=e, m=m)
                                           for s, d, e, m in recs])

    # all short histories of a small alphabet
    for n in range(0, 4):
        for speeds in itertools.product((None, 0, 3, 5), repeat=n):
            for m in (100, 300, 500, 1000):
                case([(s, i % 2, 10 + i * m // 100, m) for i, s in enumerate(speeds)])
    for a, b, c in itertools.product((1, 4, 5, 6, 9, 10, 11), repeat=3):
        case([(7, 1, a, a * 100), (9, 2, a + b, b * 100), (8, 3, a + b + c, c * 100)])
    for at, speed, long_one in itertools.product(range(13), (None, 0, 9), (1100, 1199, 3000, 1099)):     # one that covers too much, anywhere
        recs = [(5, 1, i + 1, 100) for i in range(13)]
        recs[at] = (speed, R.choice((None, 1)), at + 1, long_one)
        case(recs)
    for _ in range(20000 if THOROUGH else 1500):
        style = R.choice(('one', 'five', 'mixed', 'mixed', 'ten', 'rapid'))
        n = R.choice((5, 9, 10, 11, 15, 20, 25, 30, 40)) if style in ('one', 'mixed', 'rapid') else R.randrange(1, 12)
        t, recs = R.randrange(0, 1440), []
        top = R.choice((0, 1, 2, 3, 30, 200))
        for _ in range(n):
            m = {'one': 100, 'five': 500, 'ten': 1000, 'rapid': R.choice((4, 50, 99, 100, 150)),
                 'mixed': R.choice((100, 100, 100, 200, 300, 500, 700, 1000))}[style]
            if R.random() < 0.004:
                m = R.choice((1100, 1500, 3000, 1099))
            t += max(1, m // 100) + (R.choice((1, 7, 60)) if R.random() < 0.05 else 0)
            recs.append((None if R.random() < 0.05 else R.randrange(0, top + 1),
                         None if R.random() < 0.1 else R.choice((0, 0, 1, 2, 15, R.randrange(16))), t, m))
        case(recs)
    if THOROUGH:
        for _ in range(30):
            case([(R.randrange(0, 40), R.randrange(16), 5 * i, 500) for i in range(1, 289)])


KEYS = ('temperature_wet_bulb', 'temperature_wet_bulb_low', 'temperature_wet_bulb_high', 'dew_point_outside',
        'dew_point_outside_low', 'dew_point_outside_high', 'heat_index_outside', 'heat_index_outside_low',
        'heat_index_outside_high', 'dew_point_inside', 'heat_index_inside', 'wind_chill', 'wind_chill_low',
        'wind_chill_high', 'thw_index', 'thw_index_low', 'thw_index_high', 'thsw_index', 'thsw_index_low', 'thsw_index_high')
FIELDS = dict(ws='wind_speed', wsh='wind_speed_high', ho='humidity_outside', hi='humidity_inside', p='barometric_pressure',
              t='temperature_outside', tl='temperature_outside_low', th='temperature_outside_high', ti='temperature_inside',
              sr='solar_radiation', srh='solar_radiation_high')
PLACES = dict(ws=1, wsh=1, ho=1, hi=1, p=3, t=1, tl=1, th=1, ti=1, sr=0, srh=0)


def derive():
    def formula(f, *args):
        if any(a is None for a in args):
            return []
        out, v = outcome(f, *args)
        return [BAD] if out != 'ok' else [] if v is None else [num(v, 1)]

    def case(v, minutes):
        values = {k: None if n is None else D(n).scaleb(-PLACES[k]) for k, n in v.items()}
        for k in ('sr', 'srh'):
            if values[k] is not None:
                values[k] = int(values[k])
        record = {FIELDS[k]: x for k, x in values.items() if x is not None or R.random() < 0.7}
        record['minutes_covered'] = minutes
        if R.random() < 0.5:
            record = models.RecordDict(**record)
        out, result = outcome(utils.calculate_all_record_values, record)
        g = values
        clh, chl = (g['t'], g['tl'], g['th']), (g['t'], g['th'], g['tl'])
        u = utils
        ws, wsh = g['ws'] or 0, g['wsh'] or 0
        nz = lambda x: x or None  # noqa: formulas are only asked about measured values
        c = dict(
            dew=[formula(u.calculate_dew_point, t, nz(g['ho'])) for t in clh],
            heat=[formula(u.calculate_heat_index, t, nz(g['ho'])) for t in clh],
            wet=[formula(u.calculate_wet_bulb_temperature, t, nz(g['ho']), nz(g['p'])) for t in clh],
            inside=[formula(u.calculate_dew_point, g['ti'], nz(g['hi'])), formula(u.calculate_heat_index, g['ti'], nz(g['hi']))],
            chill=[formula(u.calculate_wind_chill, t, nz(g['ws'])) for t in chl] +
                  [formula(u.calculate_wind_chill, t, nz(g['wsh'])) for t in chl],
            thw=[formula(u.calculate_thw_index, t, nz(g['ho']), w) for t in chl for w in (ws, wsh)],
            thsw=[formula(u.calculate_thsw_index, t, nz(g['ho']), nz(g['sr']), w) for t in chl for w in (ws, wsh)] +
                 [formula(u.calculate_thsw_index, t, nz(g['ho']), nz(g['srh']), w) for t in chl for w in (ws, wsh)])
        ok = out == 'ok' and isinstance(result, dict) and all(k in KEYS or k == 'wind_run_distance_total' for k in result)
        r = {k: [] if not ok or result.get(k) is None else [num(result[k], 1)] for k in KEYS}
        run = result.get('wind_run_distance_total') if ok else None
        TRACE.case(op='derive', v={k: [] if n is None else [n] for k, n in v.items()}, minutes=minutes, c=c,
                   ok=1 if ok else 0, r=r, run=[] if run is None else list(big(run)))

    def temperature():
        return R.choice((0, 0, -1, 1, 320, 400, 401, 699, 700, 800, R.randrange(-300, 1150), R.randrange(-300, 1150),
                         R.randrange(600, 1150)))

    def one(present):
        v = dict(ws=R.choice((0, 10, R.randrange(1, 600))), wsh=R.choice((0, 10, R.randrange(1, 900))),
                 ho=R.choice((10, 500, 1000, R.randrange(1, 1001))), hi=R.choice((10, 1000, R.randrange(1, 1001))),
                 p=R.randrange(28000, 31500), t=temperature(), tl=temperature(), th=temperature(), ti=temperature(),
                 sr=R.choice((0, 1, R.randrange(1, 1200))), srh=R.choice((0, 1, R.randrange(1, 1200))))
        if R.random() < 0.5:
            spread = sorted((v['t'], v['tl'], v['th']))
            v['tl'], v['t'], v['th'] = spread
        if R.random() < 0.03:
            v['ho'] = 0
        if R.random() < 0.03:
            v['hi'] = 0
        if R.random() < 0.03:
            v['p'] = 0
        case({k: x if present(k) else None for k, x in v.items()}, R.choice((1, 5, 10, 15, 30, 60, 120)))

    for absent in itertools.chain([()], itertools.combinations(sorted(FIELDS), 1), itertools.combinations(sorted(FIELDS), 2)):
        for _ in range(30 if THOROUGH else 3):
            one(lambda k: k not in absent)
    for only in itertools.chain([()], itertools.combinations(sorted(FIELDS), 1), itertools.combinations(sorted(FIELDS), 2)):
        for _ in range(10 if THOROUGH else 2):
            one(lambda k: k in only)
    for _ in range(12000 if THOROUGH else 500):
        chance = R.choice((0.3, 0.6, 0.9, 1))
        one(lambda k: R.random() < chance)


{'window': window, 'derive': derive}[WHAT]()
TRACE.close()
