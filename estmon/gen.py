"""Workload generation: time lines, prices, epics, strategies."""
from datetime import timedelta

from estmon.timeutil import DAY, HOUR, MIN, SEC, at, floor_period, local, next_period, wall

LAST = at("2036-01-01T00:00")  # dateutil, which arrow uses, knows no DST change after 2037
ZONES = ["UTC", "Europe/Paris", "America/New_York", "Asia/Tokyo", "Australia/Sydney",
         "Asia/Kolkata", "America/Los_Angeles", "Europe/London", "Asia/Kathmandu",
         "Pacific/Auckland", "America/Sao_Paulo"]

# local instants around which implementations go wrong
# changes of offset of half an hour, of a whole day (30 December 2011 does not exist in Apia), at
# midnight, twice a year around Ramadan, negative (Dublin), or once (Moscow, Pyongyang, Caracas)
ODD = ["Australia/Lord_Howe", "Pacific/Apia", "Africa/Casablanca", "America/Havana", "Asia/Beirut", "Europe/Dublin",
       "Africa/Cairo", "Europe/Moscow", "Asia/Pyongyang", "America/Caracas"]
HALF = ["Australia/Lord_Howe", "Asia/Pyongyang", "America/Caracas"]
# changes which are not at whole hours, or of two hours
UNALIGNED = ["Pacific/Chatham", "America/St_Johns", "Antarctica/Troll", "Asia/Gaza"] + HALF

HOSTILE = {
    "UTC": ["2020-02-28T22:00", "2019-12-31T22:30", "2021-12-31T23:50", "2020-12-27T20:00",
            "2020-06-30T23:30", "2000-02-29T12:00", "2023-12-31T22:00", "2020-01-03T17:00"],
    "Europe/Paris": ["2020-10-25T00:30", "2021-03-28T00:30", "2020-03-29T01:30",
                     "2019-10-27T01:40", "2020-12-31T23:20", "2020-02-29T22:00"],
    "America/New_York": ["2020-11-01T00:20", "2021-03-14T00:40", "2020-12-31T23:00",
                         "2021-11-07T00:50"],
    "Australia/Sydney": ["2021-04-04T01:00", "2020-10-04T00:30"],
    "Europe/London": ["2020-10-25T00:10", "2021-03-28T00:00"],
    "America/Los_Angeles": ["2020-11-01T00:30", "2021-03-14T01:00"],
    "Pacific/Auckland": ["2021-04-04T01:20", "2020-09-27T01:00"],
    "America/Sao_Paulo": ["2018-11-03T22:00", "2018-02-17T22:20"],
    "Australia/Lord_Howe": ["2020-10-04T00:30", "2021-04-04T00:40"],
    "Pacific/Apia": ["2011-12-29T20:00", "2012-04-01T01:00", "2011-09-24T01:00"],
    "Africa/Casablanca": ["2020-04-19T01:00", "2020-05-31T01:00"],
    "America/Havana": ["2020-10-31T23:00", "2021-03-13T22:30"],
    "Asia/Beirut": ["2020-03-28T22:30", "2020-10-24T22:00"],
    "Europe/Dublin": ["2020-10-25T00:30", "2021-03-28T00:10"],
    "Africa/Cairo": ["2014-05-15T22:30", "2014-09-25T22:30"],
    "Europe/Moscow": ["2014-10-26T00:30", "2011-03-27T00:30"],
    "Asia/Pyongyang": ["2015-08-14T22:30", "2018-05-04T22:30"],
    "America/Caracas": ["2007-12-09T01:30", "2016-05-01T01:30"],
}
UNITS_Q = {
    "SECOND": [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60],
    "MINUTE": [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60],
    "HOUR": [1, 2, 3, 4, 6, 12],
    "DAY": [1, 7],
    "WEEK": [1],
    "MONTH": [1, 2, 3, 4, 6, 12],
    "YEAR": [1, 2, 3, 4, 5, 10],
}
UNIT_LEN = {"SECOND": SEC, "MINUTE": MIN, "HOUR": HOUR, "DAY": DAY, "WEEK": 7 * DAY,
            "MONTH": 30 * DAY, "YEAR": 365 * DAY}


def start_instant(rng, tz):
    t = some_instant(rng, tz)
    if rng.random() < 0.12:
        # the first tick is at the limit of some unit, or right before or after
        l = local(t, tz)
        whole = rng.choice([SEC, MIN, HOUR, DAY])
        wall_us = ((l.hour * 60 + l.minute) * 60 + l.second) * SEC + l.microsecond
        t += rng.choice([0, 0, 1, -1, 2, 999, SEC - 1]) - wall_us % whole
    return t


def some_instant(rng, tz):
    r = rng.random()
    if r < 0.45 and tz in HOSTILE:
        return at(rng.choice(HOSTILE[tz]), tz) + rng.randrange(0, 3 * HOUR)
    if r < 0.6:
        return at(rng.choice(HOSTILE["UTC"]), tz) + rng.randrange(0, 3 * HOUR)
    if r < 0.68:
        # before 2001, some feeds before 1970: their timestamps are negative
        return at("1931-01-01T00:00" if r < 0.62 and tz == "UTC" else "1975-01-01T00:00") + rng.randrange(0, 26 * 365 * DAY)
    return at("2001-01-01T00:00") + rng.randrange(0, 25 * 365 * DAY)


def odd_instant(rng, tz):
    """Shortly before a change of offset of a zone, between 2001 and 2021."""
    for _ in range(200):
        t = at("2001-01-01T00:00") + rng.randrange(0, 20 * 365) * DAY
        for _ in range(400):
            if local(t, tz).utcoffset() != local(t + DAY, tz).utcoffset():
                while local(t, tz).utcoffset() == local(t + HOUR, tz).utcoffset():
                    t += HOUR
                return t - rng.randrange(0, 3 * HOUR)
            t += DAY
    return t


def tick_style(rng, tz, mix=True):
    """How the provider expresses the instant of a tick."""
    if not mix:
        return "arrow:UTC"
    k = rng.random()
    if k < 0.35:
        return "arrow:UTC"
    if k < 0.55:
        return "arrow:" + tz
    if k < 0.75:
        return rng.choice(["py", "pytz", "dateutil", "sub", "arrow"]) + ":" + rng.choice(ZONES)
    if k < 0.9:
        return rng.choice(["py:UTC", "pytz:UTC", "dateutil:UTC"])
    return rng.choice(["fixed:", "arrowfixed:"]) + str(rng.choice([0, 60, -300, 330, 345, 720, -90]))


def calendar_jump(rng, t, tz):
    """The same wall clock time (or nearly) on a later day which looks like this one: next day,
    same weekday, same day of the month, same day of the year."""
    here = local(t, tz).replace(tzinfo=None)
    how = rng.choice(["day", "day", "week", "week", "month", "month", "year", "month1", "year1"])
    year, month = here.year, here.month
    if how.startswith("month"):
        year, month = (year, month + 1) if month < 12 else (year + 1, 1)
    elif how.startswith("year"):
        year += 1
    there = here.replace(year=year, month=month, day=min(here.day, 28)) if (year, month) != (here.year, here.month) else here
    there += timedelta(days={"day": 1, "week": 7, "month1": -1, "year1": -1}.get(how, 0))
    if how in ("month", "year") and there.day != here.day and there.month in (1, 3, 5, 7, 8, 10, 12):
        there = there.replace(day=here.day)
    return wall(there, tz) + rng.choice([0, 0, 0, -1, 1, SEC, -SEC, HOUR])


def time_line(rng, n, tz, step, boundary=None, opens=(), t0=None, gap=0.02, max_gap=6):
    """n non decreasing instants. `step` is the typical distance; `boundary` is a list of
    (unit, q) whose exact period limits (and one microsecond before) are aimed at; `opens`
    are wall clock times of day (strings) aimed at."""
    t = start_instant(rng, tz) if t0 is None else t0
    out = []
    jumpy = rng.random() < 0.2
    for _ in range(n):
        if out and t > LAST:
            break
        out.append(t)
        r = rng.random()
        if jumpy and rng.random() < 0.08:
            d = calendar_jump(rng, t, tz) - t
        elif r < 0.06:
            d = 0
        elif r < 0.12:
            d = rng.choice([1, 999, SEC - 1, SEC])
        elif r < 0.30 and boundary:
            unit, q = rng.choice(boundary)
            limit = next_period(floor_period(t, unit, q, tz), unit, q, tz)
            if limit - t > 40 * step:
                d = rng.randrange(0, 2 * step + 1)
            else:
                d = limit - t + rng.choice([0, 0, 0, -1, 1, -SEC, SEC])
        elif r < 0.38 and opens:
            hh = rng.choice(opens)
            l = local(t, tz)
            day = l.strftime("%Y-%m-%d")
            target = at(f"{day}T{hh}", tz)
            if target <= t:
                target = at(f"{local(t + DAY, tz).strftime('%Y-%m-%d')}T{hh}", tz)
            d = target - t + rng.choice([0, 0, 1, -1, SEC, -SEC])
            if d > 60 * step:
                d = rng.randrange(0, 2 * step + 1)
        elif r < 0.38 + gap:
            d = rng.randrange(1, max_gap + 1) * step * rng.choice([1, 3, 5])
        else:
            d = rng.randrange(0, 2 * step + 1)
        t += max(0, d)
    return out


PRICE_STYLES = ["cents", "cents", "coarse", "zero", "flat", "jump", "forex", "big", "even", "int", "fine"]


def prices(rng, n, style=None):
    """n (bid, ask) pairs."""
    style = style or rng.choice(PRICE_STYLES)
    out = []
    if style == "big":
        level = rng.randrange(10_000_00, 900_000_00)
    elif style == "zero":
        level = rng.randrange(-200, 200)
    else:
        level = rng.randrange(5_00, 20_000_00)
    base = level
    for _ in range(n):
        if style == "fine":
            b = round(level / 100 + rng.randrange(-10 ** 8, 10 ** 8) / 10 ** 8, 8)
            out.append((b, b + rng.choice([0, 10 ** -8, 0.00012345, 0.01, 0.3])))
            continue
        if style == "forex":
            b = round(1 + rng.randrange(0, 90_000) / 100_000, 5)
            a = round(b + rng.choice([0, 0.00001, 0.0001, 0.00025, 0.01]), 5)
            out.append((b, a))
            continue
        if style == "int":
            # whole numbers, some of them integers
            level += rng.choice([-300, -100, 0, 100, 200])
            whole = [level // 100, level // 100 + rng.choice([0, 0, 1, 2, 3])]
            out.append(tuple(x if rng.random() < 0.8 else float(x) for x in whole))
            continue
        if style == "coarse":
            level = base + 50 * rng.randrange(-3, 4)
            spread = 10
        elif style == "flat":
            level = base if rng.random() < 0.9 else base + rng.choice([-2, 2])
            spread = 2
        elif style == "jump":
            level += rng.choice([-2, 2, 4, -4, 5000, -5000, 100, -100])
            spread = rng.choice([0, 1, 2, 100, 333])
        elif style == "zero":
            level += rng.choice([-150, -30, -7, -2, 0, 2, 6, 31, 150])
            if abs(level) < 40 and rng.random() < 0.5:
                level = rng.choice([0, -2, -1, 1])
            spread = rng.choice([0, 0, 1, 2, 4])
        elif style == "even":
            level += 2 * rng.randrange(-30, 31)
            level -= level % 2
            spread = rng.choice([0, 2, 4, 10])
        else:
            level += rng.randrange(-60, 61)
            spread = rng.choice([0, 1, 2, 3, 5, 10, 50])
        out.append((level / 100, (level + spread) / 100))
    return out


def resend(rng, feed, share=0.12):
    """Some providers send their last tick again: the same object."""
    if rng.random() < share:
        for i in range(1, len(feed)):
            if rng.random() < 0.2:
                feed[i] = list(feed[i - 1][:5]) + ["again"]
    return feed


def market(rng, tz_choices=ZONES, always=0.1):
    tz = rng.choice(ODD if tz_choices is ZONES and rng.random() < 0.1 else tz_choices)
    r = rng.random()
    if r < always:
        o, c, days = "00:00:00", "23:59:59.999999", [0, 1, 2, 3, 4, 5, 6]
    else:
        o, c = rng.choice([("09:30:00", "17:30:00"), ("08:00:00", "22:00:00"), ("00:00:00", "12:00:00"),
                           ("14:30:00", "21:00:00"), ("09:00:00", "09:05:00"), ("10:00:00", "10:00:00"),
                           ("00:00:00", "23:59:59"), ("01:00:00", "04:00:00"),
                           ("07:15:30", "19:45:30.500000")])
        days = rng.choice([[0, 1, 2, 3, 4]] * 4 + [[0, 1, 2, 3, 4, 5, 6], [6], [0, 2, 4], [5, 6], []])
    return {"tz": tz, "open": o, "close": c, "days": days, "holidays": []}


def add_holidays(rng, epic, instants):
    """Make some of the days of the time line holidays."""
    if instants and rng.random() < 0.35:
        for _ in range(rng.randrange(1, 3)):
            d = local(rng.choice(instants), epic["tz"]).strftime("%Y-%m-%d")
            if rng.random() < 0.2:
                # the same day of another year is not a holiday
                d = str(int(d[:4]) - rng.choice([-1, 1])) + d[4:]
                if d.endswith("02-29"):
                    continue
            if d not in epic["holidays"]:
                epic["holidays"].append(d)
