"""C28: results depend on the instants of the ticks, not on the timezone or type which expresses them."""
from estmon import chart, fresh, gen as g, snap, trading
from estmon.chart import count_frames
from estmon.timeutil import HOUR, MIN, at
from estmon.world import World

PROP = "C28"
TEMPLATES = [("charts", 160, 2500), ("dst", 220, 3500), ("trades", 160, 2500), ("long", 6, 100)]
RULE = ("seeded feeds are given as UTC instants, then with every instant expressed in random timezones and types (arrow, "
        "python, pytz, dateutil, fixed offsets); callbacks, frames, indicators, trades and all the dates shown must be the "
        "same after every tick; non-trivial: at least 3 ways of expressing instants; distinct: hash of the states compared")
REQUIRED = ("judged:same", "judged:dates", "styles:arrow", "styles:py", "styles:pytz", "styles:dateutil", "styles:fixed",
            "styles:arrowfixed")
FRESH = True
SHRINK = ("feed",)
ASSUMPTIONS = ["instants between 1970 and 2036"]


def gen(template, rng):
    n = 200 if template == "long" else rng.choice([15, 30, 50])
    spec = trading.trading_spec(rng, n, always=0.4, density=0.5 if template == "trades" else 0.1,
                                n_epics=rng.choice([1, 2]), step=rng.choice([MIN, 10 * MIN, HOUR]))
    tz = spec["epics"][0]["tz"]
    if template == "dst":
        tz = rng.choice([z for z in g.HOSTILE if z != "UTC"])
        shift = at(rng.choice(g.HOSTILE[tz]), tz) - spec["feed"][0][1]
        for f in spec["feed"]:
            f[1] += shift
        for e in spec["epics"]:
            if rng.random() < 0.7:
                e["tz"] = tz
    for e, epic in enumerate(spec["epics"]):
        epic["frame_sets"] = []
        mine = [f for f in spec["feed"] if f[0] == e]
        for f in chart.pick_frames(rng, rng.choice([1, 2]), tick_sets=0.2):
            kinds = rng.sample([{"kind": "candle"}, {"kind": "ha"}, {"kind": "pivot"}, {"kind": "sma", "n": 3}], 2)
            f["indicators"] = [dict(k, ref=f"i{j}", moo=rng.random() < 0.4) for j, k in enumerate(kinds)]
            if count_frames(f, epic["tz"], mine, 100) == len(mine):
                epic["frame_sets"].append(f)
    for i, f in enumerate(spec["feed"]):
        # in the zone of the epic most of the time when it is repeated or skipped
        z = spec["epics"][f[0]]["tz"] if rng.random() < 0.5 else rng.choice(g.ZONES)
        f[4] = rng.choice(["arrow:", "py:", "pytz:", "dateutil:", "sub:"]) + z if rng.random() < 0.8 else g.tick_style(rng, z)
    return spec


class Log:
    def __init__(self):
        self.calls = []

    def on_callback(self, world, s, name, e):
        self.calls.append((s, name, e))


def dates(world):
    out = {"ticks": [x.last_tick.datetime.isoformat() for x in world.epics]}
    for i, row in enumerate(world.frame_sets):
        for k, fs in enumerate(row):
            out["frames%d.%d" % (i, k)] = [(f.period_start.isoformat(), f.period_end and f.period_end.isoformat())
                                           for f in fs.frames[-6:]]
    out["trades"] = [(t.datetime.isoformat(), [c.datetime.isoformat() for c in t.closes]) for t in world.trades]
    return out


def reference(spec):
    """What is shown after each tick of a feed."""
    log = Log()
    world = World(spec, log)
    out = []
    for i in range(len(spec["feed"])):
        world.feed(i)
        out.append((len(log.calls), snap.world(world), dates(world)))
    world.join()
    return log.calls, out


def run(spec, mon):
    plain = dict(spec, feed=[f[:4] + ["arrow:UTC"] for f in spec["feed"]])
    calls, wanted = fresh.call(reference, plain)
    log = Log()
    world = World(spec, log)
    styles = set()
    for i, item in enumerate(spec["feed"]):
        n, shown, days = wanted[i]
        world.feed(i)
        styles.add(item[4])
        mon.ev("styles:" + item[4].partition(":")[0])
        mon.ok(log.calls == calls[:n], "same", "callbacks after tick %s (%s)", i, item[4])
        d = snap.diff(shown, snap.world(world))
        mon.ok(d is None, "same", "after tick %s, UTC against %s: %s", i, item[4], d)
        seen = dates(world)
        d = snap.diff(days, seen)
        mon.ok(d is None, "dates", "after tick %s, UTC against %s: %s", i, item[4], d)
        mon.sig(seen["ticks"], n)
    world.join()
    mon.nontrivial = len(styles) >= 3
