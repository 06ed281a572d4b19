"""Moments worth converting: around the changes of every zone, the turn of the year, and anywhere.  Judges nothing."""
import datetime

import pytz

EPOCH = datetime.datetime(2000, 1, 1)
NAMES = {
    'America/Chicago': 2000, 'America/New_York': 2000, 'America/Denver': 2000, 'America/Anchorage': 2007, 'America/St_Johns': 2012,
    'America/Phoenix': 2000, 'Pacific/Honolulu': 2000, 'Europe/London': 2000, 'Europe/Berlin': 2000, 'Europe/Helsinki': 2000,
    'Asia/Kolkata': 2000, 'Asia/Kathmandu': 2000, 'Asia/Tokyo': 2000, 'Australia/Sydney': 2009, 'Australia/Brisbane': 2000,
    'Australia/Adelaide': 2009, 'Australia/Lord_Howe': 2009, 'Pacific/Auckland': 2008, 'UTC': 2000}
FIXED = {'Fixed+05:30': 330, 'Fixed-09:30': -570, 'Fixed+14:00': 840}


def minute(t):
    return (t - EPOCH).days * 1440 + (t - EPOCH).seconds // 60


def moments(R, name, count):
    first = NAMES.get(name, 2000)
    out = []
    for _ in range(count):
        year = R.randrange(first, 2038)
        out.append(datetime.datetime(year, R.randrange(1, 13), R.randrange(1, 29), R.randrange(24), R.randrange(60)))
        year = R.randrange(first, 2038)
        out.append(R.choice((datetime.datetime(year, 1, 1), datetime.datetime(year, 12, 31, 23, 59), datetime.datetime(year, 7, 1))))
    for _ in range(count):
        year = R.randrange(first, 2038)
        for month in (3, 4, 9, 10, 11):         # the hours around three o'clock of a Sunday in which rules may change
            days = [d for d in (datetime.datetime(year, month, k) for k in range(1, 31)) if d.weekday() == 6]
            d = R.choice((days[0], days[1], days[-1]))
            out.append(d + datetime.timedelta(minutes=R.choice((0, 59, 60, 89, 90, 119, 120, 121, 149, 150, 179, 180, 181, R.randrange(300)))))
    return out


def ways(R, name):
    """The ways a zone is given to the exporter."""
    if name in FIXED:
        return [pytz.FixedOffset(FIXED[name]), datetime.timezone(datetime.timedelta(minutes=FIXED[name]))]
    out = [name, pytz.timezone(name)]
    try:
        import zoneinfo
        out.append(zoneinfo.ZoneInfo(name))
    except Exception:
        pass
    return out


def cases(R, count):
    for name in list(NAMES) + list(FIXED):
        for t in moments(R, name, count):
            yield name, R.choice(ways(R, name)), t


COMMON = [datetime.datetime(2016, 3, 13, 2, 30), datetime.datetime(2016, 7, 1, 12, 0), datetime.datetime(2016, 12, 31, 23, 59)]


def spells(R, count):
    """Several moments for one exporter: the hours of a day on which rules may change, in any order, days about it, the other season,
    and some moments every zone gets."""
    for name in list(NAMES) + list(FIXED):
        for _ in range(count):
            year = R.randrange(max(2008, NAMES.get(name, 2000)), 2038)
            month = R.choice((3, 3, 4, 9, 10, 10, 11, 11))
            days = [d for d in (datetime.datetime(year, month, k) for k in range(1, 31)) if d.weekday() == 6]
            d = R.choice((days[0], days[1], days[-1]))
            out = [d + datetime.timedelta(minutes=m) for m in (1, 61, 100, 121, 150, 181, 250, 1439, -700, 2000)]
            out += [d + datetime.timedelta(days=R.choice((150, 183, 200))), R.choice(COMMON)]
            R.shuffle(out)
            yield name, R.choice(ways(R, name)), out[:R.randrange(4, 10)]
