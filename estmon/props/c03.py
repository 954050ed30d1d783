"""C03: strategies are told of market opens, closes and ticks exactly once each, in order, on a consistent state."""
from estmon import chart, gen as g
from estmon.chart import FrameModel, is_open
from estmon.timeutil import DAY, HOUR, MIN, local, parse_date, parse_time
from estmon.world import World

PROP = "C03"
TEMPLATES = [("hours", 300, 5000), ("edges", 250, 4000), ("days", 200, 3000), ("many", 120, 2000), ("dst", 100, 1500),
             ("rezone", 100, 1500), ("settings", 100, 1500), ("long", 8, 120)]
RULE = ("seeded feeds aimed at market opens and closes (exact, 1us before and after), holidays, week-ends and DST changes, "
        "to 1-3 epics and 1-4 strategies; non-trivial: the market both opened and closed; distinct: hash of the callback "
        "sequences")
REQUIRED = ("judged:market", "judged:protocol", "judged:state", "opens", "closes", "ticks_open", "ticks_closed", "rezoned", "reset", "idled")
SHRINK = ("feed",)
ASSUMPTIONS = ["the order in which several strategies are called is not judged",
               "strategies are only paused and stopped by themselves, while they are called (see C27)"]


def gen(template, rng):
    n_epics = rng.choice([2, 3]) if template == "many" else 1
    epics = [g.market(rng, always=0.02) for _ in range(n_epics)]
    t0 = None
    if template == "dst":
        from estmon.timeutil import at

        tz = rng.choice([z for z in g.HOSTILE if z != "UTC"])
        epics[0]["tz"] = tz
        epics[0]["days"] = [0, 1, 2, 3, 4, 5, 6]
        epics[0]["open"], epics[0]["close"] = rng.choice([("00:30:00", "02:30:00"), ("02:00:00", "03:00:00"),
                                                           ("01:30:00", "02:15:00"), ("03:00:00", "12:00:00")])
        t0 = at(rng.choice(g.HOSTILE[tz]), tz)
    step = {"days": DAY, "dst": 10 * MIN}.get(template) or rng.choice([MIN, 20 * MIN, HOUR, 5 * HOUR])
    n = 700 if template == "long" else rng.choice([20, 50, 90])
    times = g.time_line(rng, n, epics[0]["tz"], step, t0=t0, boundary=[("DAY", 1)] if template == "days" else None,
                        opens=(epics[0]["open"], epics[0]["close"], "00:00:00"))
    if template == "edges" and times:
        # around the limits of the market hours of successive days
        from datetime import timedelta

        from estmon.timeutil import wall

        day = local(times[0], epics[0]["tz"]).replace(tzinfo=None, hour=0, minute=0, second=0, microsecond=0)
        new = []
        for k in range(rng.randrange(4, 12)):
            for edge in (epics[0]["open"], epics[0]["close"]):
                t = parse_time(edge)
                base = wall(day.replace(hour=t.hour, minute=t.minute, second=t.second, microsecond=t.microsecond),
                            epics[0]["tz"])
                new += [base + d for d in (-1_000_000, -1, 0, 1, 1_000_000) if rng.random() < 0.7]
            day += timedelta(days=rng.choice([1, 1, 1, 2, 3]))
        times = sorted(t for t in new if t < g.LAST)
    for e in epics:
        g.add_holidays(rng, e, times)
    bids = g.prices(rng, len(times))
    feed = [[rng.randrange(n_epics), t, b, a, g.tick_style(rng, epics[0]["tz"])] for t, (b, a) in zip(times, bids)]
    g.resend(rng, feed)
    strategies = [{"epics": sorted(rng.sample(range(n_epics), rng.randrange(1, n_epics + 1)))}
                  for _ in range(rng.choice([1, 2, 4]))]
    for k, e in enumerate(epics):
        f = {"unit": "TICK", "q": rng.choice([1, 3]), "ref": "F0", "max": 5,
             "indicators": [{"kind": "candle", "ref": "c", "moo": False}]}
        e["frame_sets"] = [f]
        h = {"unit": "HOUR", "q": 4, "ref": "F1", "max": 5, "indicators": [{"kind": "candle", "ref": "c", "moo": False}]}
        mine = [x for x in feed if x[0] == k]
        if chart.count_frames(h, e["tz"], mine, 150) == len(mine):
            e["frame_sets"].append(h)
    spec = {"epics": epics, "strategies": strategies, "feed": feed}
    if template == "rezone":
        # the timezone of epics is changed between ticks
        for e in epics:
            e["frame_sets"] = []
        spec["rezone"] = {str(i): [f[0], rng.choice(g.ZONES)] for i, f in enumerate(feed) if rng.random() < 0.1}
    elif template == "settings":
        # market hours, trading days and holidays are changed between ticks
        spec["settings"] = {}
        for i, f in enumerate(feed):
            if rng.random() < 0.1:
                new = dict(g.market(rng), holidays=[])
                day = local(f[1] + rng.choice([0, 0, DAY, 2 * DAY]), epics[f[0]]["tz"]).strftime("%Y-%m-%d")
                new["holidays"] = rng.choice([[], [day]])
                keys = rng.sample(["open", "close", "days", "holidays"], rng.choice([1, 1, 2, 4]))
                spec["settings"][str(i)] = [f[0], {k: new[k] for k in sorted(keys)}]
    elif rng.random() < 0.25:
        # strategies pause or stop themselves when they are called
        spec["idle"] = {str(i): [rng.randrange(len(strategies)), rng.choice(["open", "close", "tick_open", "tick_open", "tick"]),
                                 rng.choice([None] + [feed[min(i + k, len(feed) - 1)][1] + 1 for k in (0, 1, 2, 5, 9)])]
                        for i in range(len(feed)) if rng.random() < 0.15}
    return spec


class Listener:
    def __init__(self, spec, mon):
        self.mon, self.spec = mon, spec
        self.zones = [e["tz"] for e in spec["epics"]]
        self.market = [dict(e) for e in spec["epics"]]
        self.was = [False] * len(spec["epics"])
        self.calls = []
        self.models = [[FrameModel(f, e["tz"]) for f in e["frame_sets"]] for e in spec["epics"]]
        self.seen = set()
        self.stopped, self.until = set(), {}

    def before_tick(self, world, i, e, tick):
        us = world.spec["feed"][i][1]
        change = self.spec.get("rezone", {}).get(str(i))
        if change and change[0] < len(world.epics):
            world.epics[change[0]].timezone = change[1]
            self.zones[change[0]] = change[1]
            self.mon.ev("rezoned")
        change = self.spec.get("settings", {}).get(str(i))
        if change and change[0] < len(world.epics):
            x, new = change
            self.market[x].update(new)
            for key, v in new.items():
                if key in ("open", "close"):
                    setattr(world.epics[x], key + "_time", parse_time(v))
                elif key == "days":
                    world.epics[x].trade_days = list(v)
                else:
                    world.epics[x].holidays = [parse_date(d) for d in v]
            self.mon.ev("reset")
        self.now = is_open(dict(self.market[e], tz=self.zones[e]), us)
        self.calls = []
        self.i = i
        self.active = [s not in self.stopped and us >= self.until.get(s, us) for s in range(len(self.spec["strategies"]))]
        for m in self.models[e]:
            m.on_tick(us, tick, self.now)
        self.mon.ev("ticks_open" if self.now else "ticks_closed")

    def state(self, world, e, when):
        mon = self.mon
        epic = world.epics[e]
        ctx = (when, "tick %d" % self.i, "epic %d" % e)
        mon.ok(epic.last_tick is world.current_tick, "state", "last tick is not the current one %s", ctx)
        mon.ok(epic.market_open is self.now and epic.is_market_open() is self.now, "market",
               "market %s / %s instead of %s at %s %s", epic.market_open, epic.is_market_open(), self.now,
               local(self.spec["feed"][self.i][1], self.zones[e]), ctx)
        for fs, m in zip(world.frame_sets[e], self.models[e]):
            w = m.frames[-1]
            mon.ok(fs.current.last_tick is world.current_tick and fs.current.nb_ticks == len(w.ticks)
                   and fs.current.first_tick is w.ticks[0], "state", "frames are not up to date %s", ctx)
            mon.ok(fs.current["c"].last_tick is world.current_tick, "state", "indicators are not up to date %s", ctx)

    def on_callback(self, world, s, name, e):
        self.calls.append((s, name, e))
        idle = self.spec.get("idle", {}).get(str(self.i))
        if idle and idle[:2] == [s, name]:
            self.mon.ev("idled")
            if idle[2] is None:
                world.strategies[s].stopped = True
                self.stopped.add(s)
            else:
                from estmon.timeutil import make_datetime

                world.strategies[s].paused_until = make_datetime(idle[2], "arrow:UTC")
                self.until[s] = idle[2]
        self.state(world, e, "strategy %d %s" % (s, name))

    def after_tick(self, world, i, e, tick):
        mon = self.mon
        self.state(world, e, "after")
        moved = self.now != self.was[e]
        for s, st in enumerate(self.spec["strategies"]):
            got = [(name, x) for (n, name, x) in self.calls if n == s]
            want = []
            if e in st["epics"] and self.active[s]:
                if moved:
                    want.append("open" if self.now else "close")
                if self.now:
                    want.append("tick_open")
                want.append("tick")
            mon.ok(got == [(name, e) for name in want], "protocol", "strategy %s of epics %s is called with %s instead of %s at "
                   "tick %s of epic %s", s, st["epics"], got, want, i, e)
            mon.sig(s, want)
        if moved:
            mon.ev("opens" if self.now else "closes")
            self.seen.add(self.now)
        self.was[e] = self.now
        for other, epic in enumerate(world.epics):
            mon.ok(epic.market_open is self.was[other], "market", "market of epic %s changed by a tick of %s", other, e)
        mon.nontrivial = len(self.seen) == 2


def run(spec, mon):
    World(spec, Listener(spec, mon)).run()
