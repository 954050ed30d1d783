"""C11: every accepted tick is in exactly one frame of each frame set, and the summary of a
frame (first, highest, lowest, last, count) is that of its ticks."""
from estmon import chart
from estmon.world import World

PROP = "C11"
TEMPLATES = [("mixed", 500, 8000), ("ticks", 150, 2500), ("dense", 60, 900), ("dst", 120, 2000), ("long", 10, 150)]
RULE = ("seeded feeds into one epic with 1-3 frame sets (time and tick count units); non-trivial: a frame with at "
        "least 3 ticks and 2 different values was observed; distinct: hash of the sequence of frame summaries")
REQUIRED = ("judged:first", "judged:last", "judged:high", "judged:low", "judged:count")
SHRINK = ("feed",)
ASSUMPTIONS = ["the number of ticks of a frame created to fill a gap is not judged"]


def gen(template, rng):
    if template == "ticks":
        return chart.chart_spec(rng, rng.choice([20, 60, 120]), tick_sets=1)
    if template == "dense":
        return chart.chart_spec(rng, 150, per_frame=40, tick_sets=0, gap=0.01)
    if template == "dst":
        return chart.chart_spec(rng, 60, dst=True, tick_sets=0.1, cap=120,
                                families=[["SECOND"], ["MINUTE"], ["HOUR"], ["DAY", "HOUR"]])
    if template == "long":
        return chart.chart_spec(rng, 700, nsets=1, per_frame=rng.choice([3, 300]), cap=400, maxes=(5, 100))
    return chart.chart_spec(rng, rng.choice([10, 40, 80]))


def judge(mon, frame, want, ctx):
    ticks = want.all
    values = [t.value for t in ticks]
    mon.ok(frame.first_tick is ticks[0], "first", "first tick of %s", ctx)
    mon.ok(frame.last_tick is ticks[-1], "last", "last tick of %s", ctx)
    mon.ok(frame.high_tick.value == max(values), "high", "highest value of %s: %s instead of %s", ctx,
           frame.high_tick.value, max(values))
    mon.ok(frame.low_tick.value == min(values), "low", "lowest value of %s: %s instead of %s", ctx,
           frame.low_tick.value, min(values))
    mon.ok(frame.high_tick is ticks[values.index(max(values))], "high", "highest tick of %s is not the first which reached it", ctx)
    mon.ok(frame.low_tick is ticks[values.index(min(values))], "low", "lowest tick of %s is not the first which reached it", ctx)
    if not want.gap:
        mon.ok(frame.nb_ticks == len(ticks), "count", "%s counts %s ticks instead of %s", ctx, frame.nb_ticks,
               len(ticks))


class Listener(chart.ChartListener):
    def after_tick(self, world, i, e, tick):
        mon = self.mon
        for (fs, model, fspec) in self.rows(world, e):
            full = i % 16 == 0 or i == len(world.spec["feed"]) - 1
            mon.ok(len(fs.frames) > 0, "count", "no frame after a tick")
            for frame, want in self.pairs(fs, model, full):
                judge(mon, frame, want, ("frame %d" % want.number, fspec["unit"], fspec["q"], "tick %d" % i))
            mon.ok(fs.current is fs.frames[-1], "last", "the current frame is not the last one")
            f = fs.current
            mon.sig(f.nb_ticks, f.first_tick.value, f.high_tick.value, f.low_tick.value, f.last_tick.value)
            if f.nb_ticks >= 3 and f.high_tick.value > f.low_tick.value:
                mon.nontrivial = True


def run(spec, mon):
    World(spec, Listener(spec, mon)).run()
