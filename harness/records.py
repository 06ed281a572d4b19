"""Archive records with plausible contents, made by /repo's own decoders and then filled.  Judges nothing."""
import io
from decimal import Decimal as D

from common import repo_module
import codec

models = repo_module('weatherlink.models')
POINTS = list(models.WindDirection)


def tenths(R, a, b):
    return D(R.randrange(a, b + 1)) / 10


def values(R, kind):
    """A plausible value for every measurement."""
    whole = kind == 'download'
    t = R.choice((R.randrange(-300, 1100), R.randrange(-20, 21), 0, R.randrange(-5, 5)))
    low, high = t - R.choice((0, 0, 1, R.randrange(30))), t + R.choice((0, 0, 1, R.randrange(30)))
    wind = R.choice((0, 0, R.randrange(12), R.randrange(90)))
    gust = wind + R.choice((0, R.randrange(5), R.randrange(60)))
    rain = R.choice((0, 0, 0, R.randrange(60), R.randrange(2000)))
    click = R.choice((D('0.1'), D('0.01'), D('0.2') / D('25.4'), D('0.01')))
    rate = rain * R.choice((1, 2, 4)) if rain < 4000 else 0
    out = dict(
        temperature_outside=D(t) / 10, temperature_outside_low=D(low) / 10, temperature_outside_high=D(high) / 10,
        temperature_inside=tenths(R, 400, 900), barometric_pressure=D(R.randrange(27000, 31500)) / 1000,
        humidity_outside=R.randrange(1, 101) if whole else tenths(R, 1, 1000),
        humidity_inside=R.randrange(1, 101) if whole else tenths(R, 1, 1000),
        wind_speed=D(wind) if whole else tenths(R, wind * 10, wind * 10 + 9), wind_speed_high=D(gust) if whole else tenths(R, gust * 10, gust * 10 + 9),
        wind_direction_prevailing=R.choice(POINTS), wind_direction_speed_high=R.choice(POINTS),
        rain_amount_clicks=rain, rain_rate_clicks=rate, rain_amount=(rain * click).quantize(D('0.001')),
        rain_rate=min(D(990), (rate * click)).quantize(D('0.001')),
        solar_radiation=R.choice((0, R.randrange(1500))), solar_radiation_high=R.choice((0, R.randrange(1800))),
        uv_index=tenths(R, 0, 160), uv_index_high=tenths(R, 0, 160))
    if whole:
        out['evapotranspiration'] = D(R.randrange(256)) / 1000
    return out


def record(R, date, missing=0.1, kind=None, minutes=None):
    codec.R = R
    kind = kind or R.choice(('download', 'wlk'))
    minutes = minutes or R.choice((1, 5, 10, 15, 30, 60, 120))
    while True:
        if kind == 'download':
            r = models.ArchiveIntervalRecord.load_from_download(io.BytesIO(codec.download_base()), minutes)
        else:
            r = models.ArchiveIntervalRecord.load_from_wlk(io.BytesIO(codec.wlk_base()), 2016, 4, 1)
        if r is not None:
            break
    for k, v in values(R, kind).items():
        if k in r:
            r[k] = None if R.random() < missing else v
    r['minutes_covered'] = minutes
    r['date'] = date
    r['timestamp'] = models.convert_datetime_to_timestamp(date)
    return r
