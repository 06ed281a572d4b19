"""numerics.py WHAT OUT: calls the conversion and derivation functions of weatherlink.utils and the rain collectors."""
import decimal
import sys

from common import BAD, THOROUGH, Trace, num, outcome, repo_module, rng  # noqa
from numbers24 import big

utils = repo_module('weatherlink.utils')
models = repo_module('weatherlink.models')
WHAT = sys.argv[1]
TRACE = Trace(sys.argv[2])
R = rng('numerics-' + WHAT)
D = decimal.Decimal


def dec(n, places):
    """n * 10**-places as a number the library accepts: a Decimal, or now and then an int where it is one."""
    d = D(n).scaleb(-places)
    if n % 10 ** places == 0 and R.random() < 0.3:
        return int(d)
    return d


def result(places, f, *args):
    out, v = outcome(f, *args)
    if out != 'ok':
        return [BAD]
    return [] if v is None else [num(v, places)]


def many(few, lots):
    return lots if THOROUGH else few


def conversions():
    u = utils
    singles = dict(
        f_to_c=(u.convert_fahrenheit_to_celsius, 3), c_to_f=(u.convert_celsius_to_fahrenheit, 3),
        f_to_k=(u.convert_fahrenheit_to_kelvin, 3), k_to_f=(u.convert_kelvin_to_fahrenheit, 3),
        hg_to_kpa=(u.convert_inches_of_mercury_to_kilopascals, 2), hg_to_mb=(u.convert_inches_of_mercury_to_millibars, 2),
        mph_to_ms=(u.convert_miles_per_hour_to_meters_per_second, 5))
    for unit, (f, places) in singles.items():
        if unit.startswith('hg'):
            values = list(range(15000, 33000, 37)) + [0, 1, 29921, 29922, 30000] + [R.randrange(15000, 33000) for _ in range(many(300, 5000))]
        elif unit.startswith('mph'):
            values = list(range(0, 200001, 1000)) + list(range(0, 20000, 100)) + [R.randrange(200000) for _ in range(many(300, 5000))]
        else:
            values = (list(range(-100000, 150001, 1000)) + [-459670, -40000, 0, 32000, 212000, -17778, 1, -1, 32001, 31999] +
                      [R.randrange(-100, 1500) * 100 for _ in range(many(200, 3000))] +
                      [R.randrange(-100000, 400000) for _ in range(many(400, 8000))])
        for v in values:
            TRACE.case(op='convert', unit=unit, v=v, r=result(places, f, dec(v, 3)))
    pairs = dict(
        f_c_f=(u.convert_fahrenheit_to_celsius, u.convert_celsius_to_fahrenheit),
        f_k_f=(u.convert_fahrenheit_to_kelvin, u.convert_kelvin_to_fahrenheit),
        c_f_c=(u.convert_celsius_to_fahrenheit, u.convert_fahrenheit_to_celsius),
        k_f_k=(u.convert_kelvin_to_fahrenheit, u.convert_fahrenheit_to_kelvin))
    for unit, (there, back) in pairs.items():
        for _ in range(many(400, 8000)):
            v = R.randrange(-100000, 400000)
            TRACE.case(op='convert', unit=unit, v=v, r=result(3, lambda x: back(there(x)), dec(v, 3)))


def near(*centres):
    return [c + d for c in centres for d in (-2, -1, 0, 1, 2)]


def heat():
    ts = near(700, 710, 750, 780, 790, 800, 870, 950, 1120) + [790, 795, 796, 797, 798, 799]
    hs = near(130, 850) + [0, 1, 10, 50, 400, 500, 990, 1000, 120, 125]
    points = [(t, h) for t in ts for h in hs]
    points += [(R.randrange(650, 1300), R.randrange(0, 1001)) for _ in range(many(1500, 30000))]
    points += [(R.randrange(65, 130) * 10, R.randrange(0, 101) * 10) for _ in range(many(700, 10000))]
    points += [(R.randrange(790, 1130), R.randrange(0, 135)) for _ in range(many(700, 10000))]
    points += [(R.randrange(790, 880), R.randrange(845, 1001)) for _ in range(many(700, 10000))]
    # where the average of the simple formula crosses 80 degrees
    for h in range(0, 1001, many(10, 1)):
        t = (3200000 + 206000 - 94 * h) // 4200
        points += [(t, h), (t + 1, h)]
    points += [(t, R.randrange(0, 1001)) for t in (-400, 0, 320, 500, 699)]
    for t, h in points:
        TRACE.case(op='heat', t=t, h=h, r=result(1, utils.calculate_heat_index, dec(t, 1), dec(h, 1)))
    for t, h in R.sample(points, many(1200, 15000)):
        w = R.choice((0, 10, 50, 125, 250, 1000, R.randrange(0, 1500), R.randrange(0, 60) * 10))
        TRACE.case(op='thw', t=t, h=h, w=w, r=result(1, utils.calculate_thw_index, dec(t, 1), dec(h, 1), dec(w, 1)))


def chill():
    ts = near(400, 0, 320) + [-400, -100, 300]
    ws = [0, 1, 5, 9, 10, 11, 20, 29, 30, 31, 50, 100, 250, 500, 1000]
    points = [(t, w) for t in ts for w in ws]
    points += [(R.randrange(-600, 420), R.randrange(0, 1200)) for _ in range(many(900, 20000))]
    points += [(R.randrange(-45, 41) * 10, R.randrange(0, 61) * 10) for _ in range(many(600, 5000))]
    points += [(R.randrange(100, 401), R.randrange(1, 60)) for _ in range(many(500, 5000))]
    for t, w in points:
        TRACE.case(op='chill', t=t, w=w, r=result(1, utils.calculate_wind_chill, dec(t, 1), dec(w, 1)))
    for _ in range(many(100, 1000)):
        t = R.randrange(-500, 401)
        ws = sorted(R.sample(range(0, 1200), 30)) if R.random() < 0.5 else list(range(0, 60))
        r = []
        for w in ws:
            r += result(1, utils.calculate_wind_chill, dec(t, 1), dec(w, 1)) or [BAD]
        TRACE.case(op='chills', n=len(ws), t=t, w=ws, r=r)


def formulas():
    for _ in range(many(900, 12000)):
        t, h = R.randrange(-600, 1350), R.choice((1, 10, 50, 500, 990, 1000, R.randrange(1, 1001), R.randrange(1, 101) * 10))
        TRACE.case(op='dew', t=t, h=h, r=result(1, utils.calculate_dew_point, dec(t, 1), dec(h, 1)))
    for _ in range(many(700, 9000)):
        t, h = R.randrange(-300, 1250), R.choice((10, 500, 1000, R.randrange(1, 1001), R.randrange(1, 101) * 10))
        p = R.choice((29921, R.randrange(25000, 32000)))
        TRACE.case(op='wet', t=t, h=h, p=p, r=result(1, utils.calculate_wet_bulb_temperature, dec(t, 1), dec(h, 1), dec(p, 3)))
    for _ in range(many(700, 9000)):
        t, h = R.randrange(-300, 1250), R.choice((0, 10, 500, 1000, R.randrange(0, 1001), R.randrange(0, 101) * 10))
        q, w = R.choice((0, 1, 500, R.randrange(0, 1500))), R.choice((0, 10, R.randrange(0, 1000), R.randrange(0, 80) * 10))
        TRACE.case(op='thsw', t=t, h=h, q=q, w=w, r=result(1, utils.calculate_thsw_index, dec(t, 1), dec(h, 1), R.choice((q, D(q))), dec(w, 1)))


def days():
    def case(a):
        v = None if a is None else dec(a, 5)
        TRACE.case(op='days', a=[] if a is None else [a], heating=result(5, utils.calculate_heating_degree_days, v),
                   cooling=result(5, utils.calculate_cooling_degree_days, v))
    case(None)
    for a in [6500000, 6500001, 6499999, 0, -1, 1, -4000000, 13000000, 6510000, 6490000, 6600000, 6400000]:
        for _ in range(4):
            case(a)
    for _ in range(many(1500, 30000)):
        case(R.choice((R.randrange(-5000000, 13500000), R.randrange(-50, 135) * 100000, R.randrange(6490000, 6510000),
                       R.randrange(-500, 1350) * 10000)))


def rain():
    for kind, source in (('serial', models.RainCollectorTypeSerial), ('database', models.RainCollectorTypeDatabase)):
        for t in source:
            clicks = [0, 1, 2, 3, 9, 10, 11, 99, 100, 101, 255, 4095, 4096, 32767, 65535]
            clicks += [R.randrange(0, 65536) for _ in range(many(60, 3000))]
            clicks += list(range(0, many(50, 4096)))
            for c in clicks:
                for unit, name in (('in', 'clicks_to_inches'), ('cm', 'clicks_to_centimeters')):
                    out, v = outcome(lambda: big(getattr(t, name)(c)))
                    s, m = v if out == 'ok' else (0, [])
                    TRACE.case(op='rain', kind=kind, name=t.name, clicks=c, unit=unit, ok=1 if out == 'ok' else 0, s=s, m=m)
    TRACE.case(op='collectors', serial=sorted([t.name, t.value] for t in models.RainCollectorTypeSerial),
               database=sorted([t.name, t.value] for t in models.RainCollectorTypeDatabase))


{'conversions': conversions, 'heat': heat, 'chill': chill, 'formulas': formulas, 'days': days, 'rain': rain}[WHAT]()
TRACE.close()
