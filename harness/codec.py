"""codec.py FORMAT OUT: feeds byte strings to the record decoders (and minutes, byte strings and click counts to the
other codec functions) and records what they made of them."""
import io
import os
import sys

from common import (  # noqa
    BAD, THOROUGH, Trace, direction, dt, get, halves, num, outcome, repo_module, rng)
import datetime

models = repo_module('weatherlink.models')

MAIN = __name__ == '__main__'           # other drivers import the encoders
WHAT = sys.argv[1] if MAIN else 'lib'
TRACE = Trace(sys.argv[2]) if MAIN else None
R = rng('codec-' + WHAT)

BYTES = (0, 1, 2, 10, 20, 59, 60, 61, 127, 128, 196, 236, 254, 255)
WORDS = (0, 1, 2, 11, 12, 60, 99, 100, 254, 255, 256, 350, 360, 361, 999, 4095, 4096, 8192, 12288, 16384, 24576,
         32766, 32767, 32768, 32769, 65281, 65534, 65535)


def le(v):
    return bytes((v & 255, (v >> 8) & 255))


def put(b, o, value):
    return b[:o] + value + b[o + len(value):]


def variants(base, skip=()):
    """base() makes a sound record; every byte and every pair of bytes gets every boundary value once, every length
    occurs, and there are random sound records."""
    n = len(base())
    for o in range(n):
        for v in BYTES:
            yield put(base(), o, bytes((v,)))
        if THOROUGH:
            for v in range(256):
                yield put(base(), o, bytes((v,)))
    for o in range(n - 1):
        for v in WORDS if THOROUGH else R.sample(WORDS, 8):
            yield put(base(), o, le(v))
    for k in range(n + 1):
        yield base()[:k]
    for _ in range(6000 if THOROUGH else 400):
        yield base()
    for _ in range(2000 if THOROUGH else 100):
        yield bytes(R.randrange(256) for _ in range(n))


def decode(load, b, *args):
    """Decodes b followed by other bytes: (outcome, bytes used, record).  A cut short b is not followed by anything."""
    stream = io.BytesIO(b)
    out, value = outcome(load, stream, *args)
    return out, stream.tell(), value


# ---------------------------------------------------------------------------------------------------------------------
def w16(kind):
    """A random raw 16-bit value leaning to the interesting ones."""
    k = R.random()
    if k < 0.15:
        return R.choice(WORDS)
    if k < 0.5:
        return R.randrange(0, 1200)
    if k < 0.65:
        return 65536 - R.randrange(1, 900)
    return R.randrange(65536)


def w8():
    return R.choice(BYTES) if R.random() < 0.3 else R.randrange(256)


def code():
    return R.choice(list(range(16)) + [255])


# ---------------------------------------------------------------------------------------------------------------------
LOOP2 = dict(
    barometric_pressure=3, temperature_inside=1, humidity_inside=0, temperature_outside=1, wind_speed=0,
    wind_direction_degrees=0, wind_speed_10_minute_average=1, wind_speed_2_minute_average=1,
    wind_speed_10_minute_gust=1, wind_speed_10_minute_gust_direction_degrees=0, dew_point=0, humidity_outside=0,
    heat_index=0, wind_chill=0, thsw_index=0, rain_rate_clicks=0, uv_index=1, solar_radiation=0,
    rain_clicks_this_storm=0, rain_clicks_today=0, rain_clicks_15_minutes=0, rain_clicks_1_hour=0,
    evapotranspiration=3, rain_clicks_24_hours=0, minute_in_hour=0,
    rain_rate=2, rain_amount_this_storm=2, rain_amount_today=2, rain_amount_15_minutes=2, rain_amount_1_hour=2,
    rain_amount_24_hours=2, record_type=0)


def value(record, name, places):
    v = get(record, name)
    return [] if v is None else [num(v, places)]


def enum_value(v, f):
    return [] if v is None else [f(v)]


def encode_loop2(record):
    r = {k: value(record, k, p) for k, p in LOOP2.items()}
    for k in ('wind_direction', 'wind_speed_10_minute_gust_direction'):
        r[k] = enum_value(get(record, k), direction)
    r['barometric_trend'] = enum_value(get(record, 'barometric_trend'), lambda t: num(getattr(t, 'value', BAD)))
    c = get(record, 'crc_match')
    r['crc_match'] = [1 if c is True else 0 if c is False else BAD]
    return r


def crc16(b):
    crc = 0
    for x in b:
        crc ^= x << 8
        for _ in range(8):
            crc = ((crc << 1) ^ 0x1021) & 0xFFFF if crc & 0x8000 else crc << 1
    return crc


def loop2_base(crc=True):
    b = bytearray(w8() for _ in range(99))
    for o, v in ((0, 76), (1, 79), (2, 79), (4, 1), (5, 255), (6, 127), (15, 255), (26, 255), (27, 127), (28, 255),
                 (29, 127), (32, 255), (34, 255), (71, 255), (95, 10), (96, 13)):
        b[o] = v
    for o in range(83, 95, 2):
        b[o:o + 2] = b'\xff\x7f'
    b[3] = R.choice((0, 20, 60, 196, 236, 80)) if R.random() < 0.8 else w8()
    for o in (7, 18, 20, 22, 41, 44, 46, 50, 52, 54, 56, 58, 9, 12, 30, 35, 37, 39):
        b[o:o + 2] = le(w16('H'))
    for o in (16, 24):
        b[o:o + 2] = le(R.randrange(0, 364) if R.random() < 0.9 else w16('H'))
    if crc:
        c = crc16(b[:97])
        b[97:99] = bytes((c >> 8, c & 255))
    return bytes(b)


def loop2():
    def all_inputs():
        for d in list(range(0, 404)) + [511, 512, 32768, 65535]:
            b = put(loop2_base(), 16 if d % 2 else 24, le(d))
            yield b
            yield put(loop2_base(), 24 if d % 2 else 16, le(d))
        for b in variants(loop2_base):
            if R.random() < 0.5 and len(b) == 99:
                c = crc16(b[:97])
                b = b[:97] + bytes((c >> 8, c & 255))
            yield b
    nothing = encode_loop2({})
    for b in all_inputs():
        tail = R.choice((b'', b'LOO', loop2_base())) if len(b) == 99 else b''
        stream = io.BytesIO(b + tail)
        out, record = outcome(models.LoopRecord.load_loop_2_from_connection, stream)
        TRACE.case(op='loop2', b=list(b), out=out, used=stream.tell(),
                   rec=encode_loop2(record) if out == 'ok' else nothing)


# ---------------------------------------------------------------------------------------------------------------------
DOWNLOAD = dict(
    temperature_outside=1, temperature_outside_high=1, temperature_outside_low=1, rain_amount_clicks=0,
    rain_rate_clicks=0, barometric_pressure=3, solar_radiation=0, number_of_wind_samples=0, temperature_inside=1,
    humidity_inside=0, humidity_outside=0, wind_speed=0, wind_speed_high=0, uv_index=1, evapotranspiration=3,
    solar_radiation_high=0, uv_index_high=1, wind_direction_speed_high_degrees=1, wind_direction_prevailing_degrees=1,
    rain_amount=2, rain_rate=2, minutes_covered=0)
WLK = dict(
    minutes_covered=0, minutes_past_midnight=0, temperature_outside=1, temperature_outside_high=1,
    temperature_outside_low=1, temperature_inside=1, barometric_pressure=3, humidity_outside=1, humidity_inside=1,
    rain_rate_clicks=0, rain_amount_clicks=0, wind_speed=1, wind_speed_high=1, number_of_wind_samples=0,
    solar_radiation=0, solar_radiation_high=0, uv_index=1, uv_index_high=1, wind_direction_prevailing_degrees=1,
    wind_direction_speed_high_degrees=1)


def encode_interval(record, places):
    r = {k: value(record, k, p) for k, p in places.items()}
    for k in ('wind_direction_speed_high', 'wind_direction_prevailing'):
        r[k] = enum_value(get(record, k), direction)
    r['timestamp'] = halves(get(record, 'timestamp'))
    r['date'] = enum_value(get(record, 'date'), dt)
    return r


def split8(v):
    """A number of inches in units of 10^-8 inch as [q, r], q * 10^4 + r, 0 <= r < 10^4."""
    import decimal
    try:
        d = decimal.Decimal(v).scaleb(8)
        i = int(d)
        if i != d:
            return [BAD, BAD]
        q, r = divmod(i, 10000)
        return [q, r] if abs(q) < 2 ** 31 else [BAD, BAD]
    except Exception:
        return [BAD, BAD]


def encode_wlk(record):
    r = encode_interval(record, WLK)
    r['rain_collector_type'] = getattr(get(record, 'rain_collector_type'), 'name', '?')
    r['rain_amount'] = split8(get(record, 'rain_amount'))
    r['rain_rate'] = split8(get(record, 'rain_rate'))
    return r


def stamp():
    d = datetime.date(2000, 1, 1) + datetime.timedelta(R.randrange(0, 23376))
    return le(d.day + 32 * d.month + 512 * (d.year - 2000)) + le(R.randrange(24) * 100 + R.randrange(60))


def download_base():
    b = bytearray(w8() for _ in range(52))
    b[0:4] = stamp()
    for o in (4, 6, 8, 10, 12, 14, 16, 18, 20, 30):
        b[o:o + 2] = le(w16('h'))
    b[26], b[27] = code(), code()
    b[42] = 0
    return bytes(b)


def download():
    nothing = encode_interval({}, DOWNLOAD)
    for b in variants(download_base):
        tail = download_base() if len(b) == 52 else b''
        minutes = R.choice((1, 5, 10, 15, 30, 60, 120))
        stream = io.BytesIO(b + tail)
        out, record = outcome(models.ArchiveIntervalRecord.load_from_download, stream, minutes)
        if out == 'ok' and record is None:
            out = 'none'
        TRACE.case(op='download', b=list(b), minutes=minutes, out=out, used=stream.tell(),
                   rec=encode_interval(record, DOWNLOAD) if out == 'ok' else nothing)


def wlk_base():
    b = bytearray(w8() for _ in range(88))
    b[0] = 1
    for o in (4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 30, 32, 34):
        b[o:o + 2] = le(w16('h'))
    b[4:6] = le(R.choice((0, 1, 5, 719, 720, 1439, 1440)) if R.random() < 0.5 else R.randrange(1441))
    b[20:22] = le(R.choice((0, 0x1000, 0x2000, 0x3000, 0x6000)) + R.choice((0, 1, 4095, R.randrange(4096))))
    b[28], b[29] = code(), code()
    return bytes(b)


def some_day():
    d = R.choice((datetime.date(2016, 2, 28), datetime.date(2016, 2, 29), datetime.date(2015, 12, 31),
                  datetime.date(2000, 1, 1), datetime.date(2016, 4, 30),
                  datetime.date(2000, 2, 1) + datetime.timedelta(R.randrange(20000))))
    return [d.year, d.month, d.day]


def wlk():
    nothing = encode_wlk({})
    for b in variants(wlk_base):
        tail = wlk_base() if len(b) == 88 else b''
        ymd = some_day()
        stream = io.BytesIO(b + tail)
        out, record = outcome(models.ArchiveIntervalRecord.load_from_wlk, stream, *ymd)
        TRACE.case(op='wlk', b=list(b), ymd=ymd, out=out, used=stream.tell(),
                   rec=encode_wlk(record) if out == 'ok' else nothing)


SUMMARY = dict(
    minutes=0, temperature_outside_high=1, temperature_outside_low=1, temperature_inside_high=1,
    temperature_inside_low=1, temperature_outside_average=1, temperature_inside_average=1, wind_chill_high=1,
    wind_chill_low=1, dew_point_high=1, dew_point_low=1, wind_chill_average=1, dew_point_average=1,
    humidity_outside_high=1, humidity_outside_low=1, humidity_inside_high=1, humidity_inside_low=1,
    humidity_outside_average=1, barometric_pressure_high=3, barometric_pressure_low=3, barometric_pressure_average=3,
    wind_speed_high=1, wind_speed_average=1, wind_daily_run=1, wind_speed_high_10_minute_average=1, rain_total=3,
    rain_rate_high=2, total_wind_packets=0, heat_index_high=1, heat_index_low=1, heat_index_average=1,
    thw_index_high=1, thw_index_low=1, integrated_heating_degree_days=1, temperature_wet_bulb_high=1,
    temperature_wet_bulb_low=1, temperature_wet_bulb_average=1, integrated_cooling_degree_days=1)


def encode_summary(record):
    r = {k: value(record, k, p) for k, p in SUMMARY.items()}
    for k in ('wind_speed_high_direction', 'wind_speed_high_10_minute_average_direction'):
        r[k] = enum_value(get(record, k), direction)
    d = get(record, 'date')
    r['date'] = [d.year, d.month, d.day] if type(d) is datetime.date else [BAD] * 3
    return r


def summary_base():
    b = bytearray(w8() for _ in range(176))
    b[0] = 2
    b[88] = 3
    for o in list(range(2, 52, 2)) + [54, 56, 92, 102, 104, 106, 112, 114, 116, 118, 120, 122, 163]:
        b[o:o + 2] = le(w16('h'))
    b[52], b[53] = code(), code()
    return bytes(b)


def summary():
    nothing = encode_summary({})
    for b in variants(summary_base):
        tail = wlk_base() if len(b) == 176 else b''
        ymd = some_day()
        stream = io.BytesIO(b + tail)
        out, record = outcome(models.DailySummary.load_from_wlk, stream, *ymd)
        TRACE.case(op='summary', b=list(b), ymd=ymd, out=out, used=stream.tell(),
                   rec=encode_summary(record) if out == 'ok' else nothing)


# ---------------------------------------------------------------------------------------------------------------------
def crc_of(data):
    out, v = outcome(models.calculate_weatherlink_crc, data)
    return num(v) if out == 'ok' else BAD


def crc():
    def case(data):
        value = crc_of(bytes(data))
        whole = bytes(data) + bytes((value >> 8 & 255, value & 255)) if 0 <= value < 65536 else b'\x01'
        TRACE.case(op='crc', data=list(data), value=value, text=crc_of(bytes(data).decode('latin-1')),
                   whole=crc_of(whole))
    case(b'')
    for x in range(256):
        case([x])
        case([0, x])
        case([x, 0])
        case([255, x])
        case([x ^ 0x5A, x, 255 - x])
    for n in list(range(2, 64)) + [97, 99, 100, 128, 255, 256, 257, 1000, 1025, 4097, 9000]:
        case([R.randrange(256) for _ in range(n)])
    for _ in range(4000 if THOROUGH else 400):
        case([R.choice((0, 255, R.randrange(256))) for _ in range(R.randrange(1, 120))])
    # error bursts
    for _ in range(6000 if THOROUGH else 800):
        data = bytearray(R.randrange(256) for _ in range(R.choice((2, 3, 10, 99, 99, 266))))
        width = R.randrange(1, 17)
        pattern = 1 if width == 1 else (1 << (width - 1)) | R.randrange(1 << (width - 1)) | 1
        start = R.randrange(0, 8 * len(data) - width + 1)
        corrupted = int.from_bytes(data, 'big') ^ (pattern << start)
        corrupted = corrupted.to_bytes(len(data), 'big')
        TRACE.case(op='burst', data=list(data), corrupted=list(corrupted), value=crc_of(bytes(data)),
                   other=crc_of(corrupted))


# ---------------------------------------------------------------------------------------------------------------------
class Moment(datetime.datetime):
    """As other libraries have them."""


KINDS = (lambda d: d, lambda d: d.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=-6))), lambda d: d.replace(fold=1),
         lambda d: Moment(*d.timetuple()[:6]))


def stamps():
    pack, unpack = models.convert_datetime_to_timestamp, models.convert_timestamp_to_datetime

    def batch(times):
        packed, seconds, back = [], [], []
        for t in times:
            out, v = outcome(pack, t)
            packed.append(halves(v) if out == 'ok' else [BAD, BAD])
            like = t.replace(second=R.randrange(60), microsecond=R.choice((0, 1, 999999)))
            out2, v2 = outcome(pack, R.choice(KINDS)(like))
            seconds.append(halves(v2) if out2 == 'ok' else [BAD, BAD])
            true = ((t.day + 32 * t.month + 512 * (t.year - 2000)) << 16) + t.hour * 100 + t.minute
            out3, v3 = outcome(unpack, true)
            back.append(dt(v3) if out3 == 'ok' else [BAD] * 5)
        TRACE.case(n=len(times), op='stamps', t=[dt(t) for t in times], packed=packed, seconds=seconds, back=back)

    first = datetime.datetime(2000, 1, 1)
    days = (datetime.datetime(2128, 1, 1) - first).days
    minutes = list(range(1440))
    R.shuffle(minutes)
    times = []
    for d in range(days):
        day = first + datetime.timedelta(d)
        times.append(day)
        times.append(day + datetime.timedelta(minutes=1439))
        for k in range(30 if THOROUGH else 1):
            times.append(day + datetime.timedelta(minutes=minutes[(d * (30 if THOROUGH else 1) + k) % 1440]))
    for special in [first, datetime.datetime(2127, 12, 31)] + [
            first + datetime.timedelta(R.randrange(days)) for _ in range(100 if THOROUGH else 6)]:
        times += [special + datetime.timedelta(minutes=m) for m in range(1440)]
    for i in range(0, len(times), 200):
        batch(times[i:i + 200])
    # order: pairs of neighbouring and random minutes
    pairs = []
    for _ in range(20000 if THOROUGH else 3000):
        a = first + datetime.timedelta(minutes=R.randrange(days * 1440))
        b = a + datetime.timedelta(minutes=R.choice((1, -1, 59, 60, 1439, 1440, -1440, R.randrange(-10 ** 6, 10 ** 6))))
        if first <= b < datetime.datetime(2128, 1, 1):
            pairs.append((a, b))
    for i in range(0, len(pairs), 200):
        part = pairs[i:i + 200]
        less = []
        for a, b in part:
            out, v = outcome(lambda: pack(a) < pack(b))
            less.append(1 if v is True else 0 if v is False else BAD)
        TRACE.case(n=len(part), op='order', a=[dt(x) for x, _ in part], b=[dt(x) for _, x in part], less=less)
    for v in (0, 1, 5, -1, 2 ** 31, 540149772, None, 'x', '2016-01-01', 1.5, datetime.date(2016, 1, 1)):
        out, w = outcome(pack, v)
        TRACE.case(op='other', same=1 if out == 'ok' and w is v else 0)


# ---------------------------------------------------------------------------------------------------------------------
def header_bytes(counts):
    """The header of a database file whose day d has counts[d] records; the starts are those WeatherLink would write."""
    total = sum(c for c in counts[1:] if c > 0)
    b = bytes(R.choice(b'WDAT5.0\0\xff') for _ in range(16)) + total.to_bytes(4, 'little')
    at = 0
    for c in counts:
        b += (c & 0xFFFF).to_bytes(2, 'little') + at.to_bytes(4, 'little')
        at += max(c, 0)
    return b


def sound_interval():
    b = wlk_base()
    return b[:4] + le(1440 if R.random() < 0.2 else R.randrange(0, 1441)) + b[6:]


def file_bytes(layout, counts=None):
    """layout: {day: number of interval records}."""
    claimed = [0] * 32
    body = b''
    for d in range(1, 32):
        if d in layout:
            claimed[d] = layout[d] + 2
            body += summary_base() + b''.join(sound_interval() for _ in range(layout[d]))
    claimed[0] = R.choice((0, 0, 2, 5))
    for d, c in (counts or {}).items():
        claimed[d] = c
    return header_bytes(claimed) + body


EARLIER = []


def kept():
    """What the importer before this one holds is still what it held."""
    try:
        return all(imported(i) == was for i, was in EARLIER)
    except Exception:
        return False


def run_import(importer_class, path, ym, b, twice):
    def load():
        i = importer_class(path)
        i.import_data()
        if twice:
            i.import_data()
        return i

    with open(path, 'wb') as f:
        f.write(b)
    out, i = outcome(load)
    c = dict(op='file', b=list(b), ym=list(ym), out=out, kept=kept())
    if out == 'ok':
        try:
            now = imported(i)
            c.update(now)
            TRACE.case(**c)
            EARLIER[:] = [(i, now)]
            return
        except Exception:
            c['out'] = 'unusable'
    c.update(records=[], summaries=[], daily=[], version=[], count=[], counts=[], starts=[])
    TRACE.case(**c)


def imported(i):
    records = list(i.records)
    daily = [[] for _ in range(32)]
    for day, l in i.daily_records.items():
        at = 0
        for r in l:
            same = [k for k, x in enumerate(records) if x is r] or \
                [k for k, x in enumerate(records) if k >= at and encode_wlk(x) == encode_wlk(r)]
            at = same[0] if same else at
            daily[day - 1 if type(day) is int and 1 <= day <= 31 else 31].append(same[0] + 1 if same else BAD)
    h = i.header
    version = get(h, 'version_code')
    return dict(records=[encode_wlk(r) for r in records],
                summaries=[dict(day=num(d), rec=encode_summary(i.daily_summaries[d])) for d in sorted(i.daily_summaries)],
                daily=daily, version=list(version) if isinstance(version, bytes) else [BAD],
                count=halves(get(h, 'record_count')), counts=[num(get(x, 'record_count')) for x in get(h, 'day_indexes')],
                starts=[halves(get(x, 'start_index')) for x in get(h, 'day_indexes')])


def files():
    importer = repo_module('weatherlink.importer').Importer
    root = os.path.join(os.environ['SCRATCH'], 'wlk-9-files')
    os.makedirs(os.path.join(root, '2011-12.wlk'))
    # file names
    names = ['2016-04.wlk', '2000-01.wlk', '2127-12.wlk', '1999-10.wlk', '/x/2016-02.wlk', 'a-b-c/2016-11.wlk', 'x.wlk/2016-09.wlk',
             'station2016-07.wlk', '2015-01-2016-02.wlk', '', '2016-04.txt', '2016-04.WLK', '2016-04', '2016-04.wlk ', '2016-04wlk',
             '.wlk', 'x.wlk', '2016_04.wlk', '201604.wlk', 'abcd-ef.wlk', '2016-xx.wlk', 'xxxx-04.wlk', '2016--4.wlk', '/a/2016-4.wlk',
             '2016-4.wlk', '16-04.wlk', '/16-04.wlk', '2016-04.wlk.txt', '2016-0a.wlk', '2016.04.wlk', '20-16-4.wlk', '-2016-04.wl']
    names += ['%04d-%02d.wlk' % (R.randrange(1990, 2128), m) for m in range(1, 13) for _ in range(4)]
    for name in names:
        out, i = outcome(importer, name)
        TRACE.case(op='name', name=[ord(x) for x in name], out=out,
                   ym=[num(getattr(i, 'year', None)), num(getattr(i, 'month', None))] if out == 'ok' else [])
    months = [(2016, 2), (2015, 2), (2016, 4), (2016, 12), (2000, 1), (2100, 2), (2064, 3)]

    def run(b, ym=None, twice=False):
        ym = ym or R.choice(months)
        run_import(importer, os.path.join(root, R.choice(('', '2011-12.wlk')), '%04d-%02d.wlk' % ym), ym, b, twice)

    # arrangements: every pattern of few records on the first days, single days, the last days of the month
    for a in range(0, 3):
        for bb in range(0, 3):
            for cc in range(-1, 3):
                run(file_bytes({d: n for d, n in ((1, a), (2, bb), (3, cc)) if n >= 0}))
                run(file_bytes({d: n for d, n in ((R.randrange(2, 10), a), (R.randrange(10, 20), bb), (28, cc)) if n >= 0}))
    for d in range(1, 29):
        run(file_bytes({d: R.randrange(3)}), twice=d % 3 == 0)
    for ym in months:
        for d in (28, 29, 30, 31):      # days beyond the end of the month make the file malformed
            run(file_bytes({d: R.randrange(3)}), ym)
    for ym in ((2016, 0), (2016, 13), (2015, 99)):      # no such month
        run(file_bytes({1: 2}), ym)
        run(file_bytes({3: 0, 9: 1}), ym)
    run(file_bytes({}))
    run(file_bytes({d: R.randrange(3) for d in range(1, 32)}), (2016, 12))
    run(file_bytes({d: R.randrange(3) for d in range(1, 29)}), (2015, 2))
    run(file_bytes({1: 40, 2: 25}))
    run(file_bytes({5: 300} if THOROUGH else {5: 130}))
    for _ in range(400 if THOROUGH else 40):
        run(file_bytes({R.randrange(1, 29): R.randrange(5) for _ in range(R.randrange(6))}), twice=R.random() < 0.3)
    # truncations
    layouts = [{}, {1: 0}, {3: 1, 4: 0}, {2: 2, 28: 1}] + ([{1: 1, 2: 1, 3: 1}, {10: 4}] if THOROUGH else [])
    for layout in layouts:
        b = file_bytes(layout)
        cuts = range(len(b)) if THOROUGH else [k for k in range(len(b)) if k % 3 == 0 or (k - 212) % 88 in (0, 87, 1)]
        for k in cuts:
            run(b[:k])
    # counts that claim more than the file holds; records of another type anywhere
    for layout in ({1: 1, 2: 2}, {4: 3}, {7: 0, 8: 1}):
        for d in layout:
            for more in (1, 2, 100):
                run(file_bytes(layout, {d: layout[d] + 2 + more}))
        b = file_bytes(layout)
        for at in range(212, len(b), 88):
            for v in (0, 1, 2, 3, 4, 129, 255):
                run(put(b, at, bytes((v,))))


# ---------------------------------------------------------------------------------------------------------------------
if MAIN:
    {'loop2': loop2, 'download': download, 'wlk': wlk, 'summary': summary, 'crc': crc, 'stamps': stamps, 'files': files}[WHAT]()
    TRACE.close()
