"""C10: the frames of a time based frame set partition time as announced."""
from estmon import chart
from estmon import gen as gen_
from estmon.timeutil import floor_period, instant, next_period
from estmon.world import World

PROP = "C10"
TEMPLATES = [("mixed", 600, 9000), ("dst", 500, 8000), ("coarse", 160, 2400), ("long", 16, 240), ("odd", 120, 2000),
             ("limits", 300, 4000)]
RULE = ("seeded feeds (hostile dates, DST changes, exact period limits +-1us, gaps) into one epic with 1-3 frame "
        "sets; non-trivial: at least 3 frames were observed; distinct: hash of the observed sequence of period "
        "limits and frame sizes")
REQUIRED = ("judged:start", "judged:end", "judged:contiguous", "judged:contained", "judged:odd")
SHRINK = ("feed",)
ASSUMPTIONS = ["where the offset moves by a part of a frame or within an hour, only contiguity is judged, and containment from "
               "the second frame on", "instants between 2001 and 2036"]


def gen(template, rng):
    if template == "dst":
        return chart.chart_spec(rng, rng.choice([30, 60, 90]), dst=True, tick_sets=0, cap=120,
                                families=[["SECOND"], ["MINUTE"], ["MINUTE", "HOUR"], ["HOUR"], ["DAY", "HOUR"]],
                                per_frame=rng.choice([0.4, 1, 2]))
    if template == "coarse":
        return chart.chart_spec(rng, rng.choice([20, 60]), tick_sets=0, cap=150, per_frame=rng.choice([0.3, 1, 3]),
                                families=[["DAY"], ["WEEK"], ["MONTH"], ["YEAR"], ["DAY", "WEEK", "MONTH"]])
    if template == "odd":
        # the offset moves by a part of a frame: the announced limits cannot all hold, the partition still must
        tz = rng.choice(gen_.UNALIGNED)
        spec = chart.chart_spec(rng, rng.choice([30, 60]), tick_sets=0, zones=[tz], t0=gen_.odd_instant(rng, tz),
                                cap=200, families=[["MINUTE"], ["MINUTE"], ["MINUTE", "HOUR"], ["HOUR"], ["HOUR", "DAY"]],
                                per_frame=rng.choice([0.4, 1, 2]), exact=False)
        spec["odd"] = True
        return spec
    if template == "limits":
        # the first tick is at a limit of the periods, or right before or after it
        tz = rng.choice(gen_.ZONES)
        unit = rng.choice(["SECOND", "SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "YEAR"])
        t = gen_.start_instant(rng, tz)
        for _ in range(rng.randrange(3)):
            t = next_period(floor_period(t, unit, 1, tz), unit, 1, tz)
        t = max(floor_period(t, unit, 1, tz), gen_.at("2001-01-01T00:00")) + rng.choice([0, 0, 1, 1, -1, 2, 10, 999, 10 ** 6 - 1])
        return chart.chart_spec(rng, rng.choice([1, 2, 4]), tick_sets=0, zones=[tz], t0=t, families=[[unit], [unit], ["SECOND", unit]])
    if template == "long":
        return chart.chart_spec(rng, 700, tick_sets=0, nsets=1, per_frame=2, cap=400, maxes=(5, 100))
    return chart.chart_spec(rng, rng.choice([10, 40, 80]), tick_sets=0)


class OddListener:
    def __init__(self, mon):
        self.mon = mon

    def after_tick(self, world, i, e, tick):
        mon = self.mon
        us = world.spec["feed"][i][1]
        for fs, f in zip(world.frame_sets[e], world.spec["epics"][e]["frame_sets"]):
            ctx = (f["unit"], f["q"], world.spec["epics"][e]["tz"], "tick %d" % i)
            limits = [(instant(x.period_start), instant(x.period_end)) for x in fs.frames]
            mon.ok(all(a < b for a, b in limits), "start", "empty or inverted period %s", ctx)
            mon.ok(all(a[1] == b[0] for a, b in zip(limits, limits[1:])), "contiguous", "hole or overlap %s %s", ctx, limits[-3:])
            if len(limits) > 1:
                mon.ok(limits[-1][0] <= us < limits[-1][1], "contained", "tick at %s is outside of its frame %s %s", us, limits[-1], ctx)
                mon.ev("judged:odd")
                mon.nontrivial = True
            mon.ok(fs.current.last_tick is tick, "contained", "the current frame did not receive its tick %s", ctx)
            mon.sig(limits[-1], len(limits))


class Listener(chart.ChartListener):
    def after_tick(self, world, i, e, tick):
        mon = self.mon
        us = world.spec["feed"][i][1]
        for (fs, model, fspec) in self.rows(world, e):
            mon.ok(len(fs.frames) > 0, "start", "no frame after a tick")
            later = None
            full = i % 16 == 0 or i == len(world.spec["feed"]) - 1
            for frame, want in self.pairs(fs, model, full):
                start, end = instant(frame.period_start), instant(frame.period_end)
                ctx = (fspec["unit"], fspec["q"], world.spec["epics"][e]["tz"], i, frame.period_start, frame.period_end)
                mon.ok(start < end, "start", "empty or inverted period %s", ctx)
                mon.ok(start == want.start, "start", "period starts %s, expected instant %s", ctx, want.start)
                mon.ok(end == want.end, "end", "period ends %s, expected instant %s", ctx, want.end)
                mon.ok(later is None or end == later, "contiguous", "hole or overlap after %s", ctx)
                later = start
            cur = fs.current
            mon.ok(instant(cur.period_start) <= us < instant(cur.period_end), "contained",
                   "tick %s at %s is outside of its frame %s", i, us, (cur.period_start, cur.period_end))
            mon.ok(cur.last_tick is tick, "contained", "the current frame did not receive tick %s", i)
            mon.sig(model.frames[-1].start, len(fs.frames))
            if len(fs.frames) >= 3:
                mon.nontrivial = True


def run(spec, mon):
    World(spec, OddListener(mon) if spec.get("odd") else Listener(spec, mon)).run()
