"""Reference model of frame sets, and the workloads which exercise them."""

from math import gcd

from estmon import gen
from estmon.timeutil import (DAY, HOUR, MIN, SEC, floor_period, local, next_period,
                             parse_date, parse_time)

LAST = gen.LAST
CENT = 0.005 + 1e-6


def is_open(epic_spec, us):
    """Is the market of this epic open at that instant?"""
    l = local(us, epic_spec["tz"])
    t = l.replace(tzinfo=None).time()
    return (parse_time(epic_spec["open"]) <= t <= parse_time(epic_spec["close"])
            and l.weekday() in epic_spec["days"]
            and l.date() not in [parse_date(d) for d in epic_spec["holidays"]])


class MFrame:
    __slots__ = ("start", "end", "ticks", "gap", "carried", "open_ticks", "number", "day")

    def __init__(self, number, start, end, gap, carried=None):
        self.number = number
        self.start = start
        self.end = end
        self.gap = gap
        self.carried = carried  # tick carried forward (gap frames only)
        self.ticks = []
        self.open_ticks = []

    @property
    def all(self):
        return [self.carried] if self.gap else self.ticks

    @property
    def last(self):
        return self.all[-1]


class FrameModel:
    """Expected content of a frame set: all the frames since the start of the feed."""

    def __init__(self, spec, tz):
        self.unit, self.q, self.tz = spec["unit"], spec["q"], tz
        self.max = spec.get("max") or 100
        self.frames = []

    def on_tick(self, us, tick, market_open):
        """Returns the number of frames created."""
        created = 0
        if self.unit == "TICK":
            cur = self.frames[-1] if self.frames else None
            day = local(us, self.tz).date()
            if cur is None or len(cur.ticks) >= self.q or day > cur.day:
                cur = MFrame(len(self.frames), us, None, False)
                self.frames.append(cur)
                created = 1
            cur.day = day
        else:
            cur = self.frames[-1] if self.frames else None
            if cur is None or us >= cur.end:
                start = floor_period(us, self.unit, self.q, self.tz)
                while cur is not None and cur.end < start:
                    cur = MFrame(len(self.frames), cur.end,
                                 next_period(cur.end, self.unit, self.q, self.tz), True, cur.last)
                    self.frames.append(cur)
                    created += 1
                cur = MFrame(len(self.frames), start,
                             next_period(start, self.unit, self.q, self.tz), False)
                self.frames.append(cur)
                created += 1
        cur.ticks.append(tick)
        if market_open:
            cur.open_ticks.append(tick)
        return created

    def retained(self):
        return self.frames[-self.max:]


def aligned(f, tz):
    """Are the changes of offset of the zone multiples of the frame duration?"""
    return f["unit"] not in ("SECOND", "MINUTE") or tz not in gen.HALF or gcd(f["q"], 30) == f["q"] or f["unit"] == "SECOND"


def fit(f, tz):
    if not aligned(f, tz):
        f["q"] = gcd(f["q"], 30)


def count_frames(fs_spec, tz, feed, cap):
    """Number of feed items usable before the frame set has more than `cap` frames."""
    if not aligned(fs_spec, tz):
        return 0
    m = FrameModel(fs_spec, tz)
    for i, item in enumerate(feed):
        us = item[1]
        if m.frames and m.unit != "TICK":
            if us > LAST:
                return i
            span = us - m.frames[-1].end
            if span > cap * shortest(m.unit, m.q):
                return i
        m.on_tick(us, us, False)
        # dateutil, which arrow uses, knows no DST change after 2037
        if len(m.frames) > cap or (m.unit != "TICK" and m.frames[-1].end > LAST):
            return i
    return len(feed)


def shortest(unit, q):
    return {"SECOND": SEC, "MINUTE": MIN, "HOUR": HOUR, "DAY": DAY, "WEEK": 7 * DAY,
            "MONTH": 28 * DAY, "YEAR": 365 * DAY}[unit] * q


def frame_len(f):
    return gen.UNIT_LEN[f["unit"]] * f["q"] if f["unit"] != "TICK" else None


def pick_frames(rng, n, families=None, maxes=(1, 2, 3, 5, 10, None), tick_sets=0.2):
    """n frame set specs of comparable durations."""
    family = rng.choice(families or [["SECOND"], ["MINUTE"], ["MINUTE", "HOUR"], ["HOUR"], ["HOUR", "DAY"],
                                     ["DAY", "WEEK"], ["WEEK", "MONTH"], ["MONTH", "YEAR"], ["SECOND", "MINUTE"],
                                     ["DAY"], ["MINUTE"]])
    out = []
    for i in range(n):
        if rng.random() < tick_sets:
            out.append({"unit": "TICK", "q": rng.choice([1, 2, 3, 4, 5, 7, 10])})
        else:
            unit = rng.choice(family)
            out.append({"unit": unit, "q": rng.choice(gen.UNITS_Q[unit])})
        out[-1].update(ref=f"F{i}", max=rng.choice(maxes), indicators=[])
    return out


def chart_spec(rng, n_ticks, frames=None, nsets=None, always=0.25, cap=250, styles=None, zones=None,
               per_frame=None, tick_sets=0.2, maxes=(1, 2, 3, 5, 10, None), price=None, gap=0.03,
               dst=False, families=None, max_gap=6, t0=None, exact=True):
    """One epic, its frame sets and a feed aimed at their limits."""
    epic = gen.market(rng, zones or gen.ZONES, always)
    frames = frames or pick_frames(rng, nsets or (rng.randrange(4, 8) if rng.random() < 0.03 else rng.choice([1, 1, 2, 3])), families=families,
                                   maxes=maxes, tick_sets=tick_sets)
    if dst:
        tz = rng.choice([z for z in gen.HOSTILE if z != "UTC"])
        epic["tz"] = tz
    for f in frames:
        if exact:
            fit(f, epic["tz"])
    timed = [f for f in frames if f["unit"] != "TICK"]
    if timed:
        base = min(frame_len(f) for f in timed)
    else:
        base = rng.choice([MIN, HOUR, 6 * HOUR])
    step = max(1, int(base / (per_frame or rng.choice([0.5, 1, 2, 4, 8]))))
    if dst:
        from estmon.timeutil import at

        t0 = at(rng.choice(gen.HOSTILE[tz]), tz) - rng.randrange(0, 3) * step
    times = gen.time_line(rng, n_ticks, epic["tz"], step,
                          boundary=[(f["unit"], f["q"]) for f in timed] or [("DAY", 1)],
                          opens=(epic["open"], epic["close"], "00:00:00"), t0=t0, gap=gap, max_gap=max_gap)
    gen.add_holidays(rng, epic, times)
    quotes = gen.prices(rng, n_ticks, price)
    one_style = None if (styles is None and rng.random() < 0.5) else (styles or "arrow:UTC")
    feed = [[0, t, b, a, one_style or gen.tick_style(rng, epic["tz"])]
            for t, (b, a) in zip(times, quotes)]
    gen.resend(rng, feed)
    for f in timed:
        feed = feed[: count_frames(f, epic["tz"] if exact else "UTC", feed, cap)]
    epic["frame_sets"] = frames
    return {"epics": [epic], "feed": feed}


class ChartListener:
    """Keeps the models of all the frame sets of a world in step with the feed."""

    def __init__(self, spec, mon):
        self.mon = mon
        self.models = [[FrameModel(f, e["tz"]) for f in e.get("frame_sets", ())] for e in spec["epics"]]
        self.values = {}

    def before_tick(self, world, i, e, tick):
        us = world.spec["feed"][i][1]
        self.open_now = is_open(world.spec["epics"][e], us)
        self.created = []
        for m in self.models[e]:
            n = m.on_tick(us, tick, self.open_now)
            self.created.append(n)
            if n:
                self.mon.ev("frames_started", n)
        self.mon.ev("ticks")

    def rows(self, world, e):
        """(frame set, model, frame spec) of an epic."""
        return list(zip(world.frame_sets[e], self.models[e],
                        world.spec["epics"][e].get("frame_sets", ())))

    def pairs(self, fs, model, all_frames=True):
        """Observed frames matched with expected ones, newest first. Only positions both
        have are matched; the exact number of retained frames is the concern of C13."""
        frames = list(fs.frames)
        n = min(len(frames), len(model.frames))
        if not all_frames:
            n = min(n, 3 + max(self.created, default=0))
        for k in range(1, n + 1):
            yield frames[-k], model.frames[-k]


def val(t):
    return t.value
