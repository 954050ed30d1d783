"""C12: frames of n ticks hold exactly n ticks, and never mix two local days."""
from estmon import chart
from estmon.timeutil import DAY, HOUR, instant, local
from estmon.world import World

PROP = "C12"
TEMPLATES = [("days", 400, 6000), ("intraday", 250, 4000), ("mixed", 120, 2000), ("long", 8, 120)]
RULE = ("seeded feeds crossing local midnights in many zones into frame sets of 1-400 ticks; non-trivial: a frame was "
        "ended by a day change and another by its size; distinct: hash of the sequence of (frame number, count)")
REQUIRED = ("judged:split", "judged:count", "day_splits", "full_splits")
SHRINK = ("feed",)
ASSUMPTIONS = ["frame sets attached to an epic from the start; the epic does not change its zone"]


def gen(template, rng):
    n = {"days": 80, "intraday": 100, "mixed": 60, "long": 900}[template]
    qs = {"days": [1, 2, 3, 5, 8, 20, 50], "intraday": [1, 2, 3, 7, 10, 33], "mixed": [1, 2, 4, 9],
          "long": [10, 128, 257, 400]}[template]
    frames = [{"unit": "TICK", "q": rng.choice(qs), "ref": f"F{k}", "max": rng.choice([2, 3, 10, None]),
               "indicators": []} for k in range(rng.choice([1, 2, 3]))]
    if template == "mixed":
        frames += [{"unit": rng.choice(["HOUR", "DAY"]), "q": 1, "ref": "T", "max": 5, "indicators": []}]
        rng.shuffle(frames)
    spec = chart.chart_spec(rng, 0, frames=frames)
    from estmon import gen as g

    tz = spec["epics"][0]["tz"]
    step = {"days": rng.choice([HOUR, 3 * HOUR, 10 * HOUR, DAY]), "intraday": rng.choice([HOUR // 60, HOUR // 6]),
            "mixed": HOUR, "long": HOUR // 30}[template]
    times = g.time_line(rng, n, tz, step, boundary=[("DAY", 1)], opens=("00:00:00", "23:59:59.999999"), max_gap=4)
    spec["feed"] = [[0, t, b, a, g.tick_style(rng, tz)] for t, (b, a) in zip(times, g.prices(rng, n))]
    g.resend(rng, spec["feed"])
    for f in frames:
        if f["unit"] != "TICK":
            spec["feed"] = spec["feed"][: chart.count_frames(f, tz, spec["feed"], 250)]
    return spec


class Listener(chart.ChartListener):
    def __init__(self, spec, mon):
        super().__init__(spec, mon)
        self.started = {}
        self.prev = {}
        self.why = set()

    def after_tick(self, world, i, e, tick):
        mon = self.mon
        us = world.spec["feed"][i][1]
        tz = world.spec["epics"][e]["tz"]
        for k, (fs, model, fspec) in enumerate(self.rows(world, e)):
            if fspec["unit"] != "TICK":
                continue
            want = model.frames[-1]
            cur = fs.current
            prev = self.prev.get(k)
            new = self.created[k] == 1
            mon.ok((cur is not prev) == new, "split", "tick %d (%s): %s a new frame of %d ticks (previous had %s)", i,
                   local(us, tz), "expected" if new else "did not expect", fspec["q"], prev and prev.nb_ticks)
            mon.ok(cur.nb_ticks == len(want.ticks) <= fspec["q"], "count",
                   "tick %d: the frame of %d ticks counts %s instead of %s", i, fspec["q"], cur.nb_ticks,
                   len(want.ticks))
            mon.ok(cur.first_tick is want.ticks[0] and cur.last_tick is tick, "count", "content of the frame")
            mon.ok(instant(cur.period_start) == want.start, "start", "a tick frame starts with its first tick")
            if new and len(model.frames) > 1:
                why = "full" if len(model.frames[-2].ticks) == fspec["q"] else "day"
                mon.ev(why + "_splits")
                self.why.add(why)
            if i % 10 == 0:
                for f, w in self.pairs(fs, model):
                    mon.ok(f.nb_ticks == len(w.ticks), "count", "an old frame counts %s ticks instead of %s",
                           f.nb_ticks, len(w.ticks))
            self.prev[k] = cur
            mon.sig(k, len(model.frames), cur.nb_ticks)
        mon.nontrivial = len(self.why) == 2


def run(spec, mon):
    World(spec, Listener(spec, mon)).run()
