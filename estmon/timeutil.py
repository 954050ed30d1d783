"""Instants are integers (microseconds since the UNIX epoch); local time comes from the
standard library (zoneinfo), which estrade does not use."""
from datetime import date, datetime, time, timedelta, timezone
from zoneinfo import ZoneInfo

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
US = timedelta(microseconds=1)
SEC = 1_000_000
MIN = 60 * SEC
HOUR = 60 * MIN
DAY = 24 * HOUR

_zones = {}


def zone(name):
    if name not in _zones:
        _zones[name] = timezone.utc if name == "UTC" else ZoneInfo(name)
    return _zones[name]


def utc(us):
    return EPOCH + timedelta(microseconds=us)


def local(us, tz):
    return utc(us).astimezone(zone(tz))


def instant(dt):
    """Instant of any aware datetime or arrow object."""
    dt = getattr(dt, "datetime", dt)
    return (dt.astimezone(timezone.utc) - EPOCH) // US


def wall(naive, tz):
    """Instant of a wall clock time: the first one if it is repeated, the instant of the
    change if it is skipped (both are what `fold=0` means in PEP 495)."""
    return instant(naive.replace(tzinfo=zone(tz), fold=0))


def at(text, tz="UTC"):
    return wall(datetime.fromisoformat(text), tz)


# zones whose rules changed after the release of the pytz which is installed
NEWER = ("Pacific/Apia", "Africa/Casablanca", "Africa/Cairo", "Asia/Gaza")


class Stamp(datetime):
    """A type of datetimes of its own, as those of pandas."""


def make_datetime(us, style):
    """Build the object a data provider would give: `arrow:ZONE`, `py:ZONE`, `pytz:ZONE`,
    `dateutil:ZONE`, `sub:ZONE` (a subclass of datetime), `fixed:MINUTES`, `arrowfixed:MINUTES`."""
    import arrow

    kind, _, name = style.partition(":")
    u = utc(us)
    if kind == "arrow":
        return arrow.Arrow.fromdatetime(u).to(name)
    if kind == "py":
        return u.astimezone(zone(name))
    if kind == "pytz":
        if name in NEWER:
            return make_datetime(us, "dateutil:" + name)
        import pytz

        return u.astimezone(pytz.timezone(name))
    if kind == "sub":
        d = u.astimezone(zone(name))
        return Stamp(*d.timetuple()[:6], d.microsecond, d.tzinfo, fold=d.fold)
    if kind == "dateutil":
        from dateutil import tz

        return u.astimezone(tz.gettz(name))
    if kind == "fixed":
        return u.astimezone(timezone(timedelta(minutes=int(name))))
    if kind == "arrowfixed":
        return arrow.get(u.astimezone(timezone(timedelta(minutes=int(name)))))
    raise ValueError(style)


def parse_time(text):
    return time.fromisoformat(text)


def parse_date(text):
    return date.fromisoformat(text)


# ---------------------------------------------------------------- frame boundaries
def floor_period(us, unit, q, tz):
    """First instant of the period of `q` units containing the instant."""
    l = local(us, tz)
    if unit == "SECOND":
        return us - (l.second % q) * SEC - l.microsecond
    if unit == "MINUTE":
        return us - ((l.minute % q) * 60 + l.second) * SEC - l.microsecond
    n = l.replace(tzinfo=None, fold=0, minute=0, second=0, microsecond=0)
    if unit == "HOUR":
        return wall(n.replace(hour=n.hour - n.hour % q), tz)
    n = n.replace(hour=0)
    if unit == "DAY":
        return wall(n - timedelta(days=n.weekday() % q), tz)
    if unit == "WEEK":
        return wall(n - timedelta(days=n.weekday()), tz)
    if unit == "MONTH":
        return wall(n.replace(month=n.month - (n.month - 1) % q, day=1), tz)
    if unit == "YEAR":
        return wall(n.replace(year=n.year - n.year % q, month=1, day=1), tz)
    raise ValueError(unit)


def next_period(start, unit, q, tz):
    """First instant of the period following the one which starts at `start`."""
    if unit == "SECOND":
        return start + q * SEC
    if unit == "MINUTE":
        return start + q * MIN
    l = local(start, tz)
    n = l.replace(tzinfo=None, fold=0, minute=0, second=0, microsecond=0)
    if unit == "HOUR":
        n = n.replace(hour=n.hour - n.hour % q)
        return wall(n + timedelta(hours=q), tz)
    n = n.replace(hour=0)
    if unit == "DAY":
        return wall(n - timedelta(days=n.weekday() % q) + timedelta(days=q), tz)
    if unit == "WEEK":
        return wall(n - timedelta(days=n.weekday()) + timedelta(days=7), tz)
    if unit == "MONTH":
        m = n.month - (n.month - 1) % q + q
        return wall(n.replace(year=n.year + (m - 1) // 12, month=(m - 1) % 12 + 1, day=1), tz)
    if unit == "YEAR":
        return wall(n.replace(year=n.year - n.year % q + q, month=1, day=1), tz)
    raise ValueError(unit)
