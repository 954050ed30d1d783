"""C14: periods without ticks get one frame each, carrying the last known tick forward."""
from estmon import chart, indic
from estmon.gen import LAST
from estmon.timeutil import instant
from estmon.world import World

PROP = "C14"
TEMPLATES = [("gaps", 500, 8000), ("dst", 200, 3000), ("evict", 120, 2000), ("long", 12, 160), ("abyss", 6, 80)]
RULE = ("seeded feeds with many holes (0 to 3000 periods) into time based frame sets, holes longer than what is kept "
        "included; non-trivial: a hole of at least one period was filled; distinct: hash of the sequence of hole sizes "
        "and values carried")
REQUIRED = ("judged:carried", "judged:filled", "judged:indicators", "gap_frames", "holes_longer_than_memory")
SHRINK = ("feed",)
ASSUMPTIONS = []


INDICATORS = [{"kind": "candle", "ref": "c"}, {"kind": "ha", "ref": "h"}, {"kind": "pivot", "ref": "p"},
              {"kind": "olhc", "ref": "o"}, {"kind": "sma", "ref": "s", "n": 3}, {"kind": "rsi", "ref": "r", "n": 1}]


def gen(template, rng):
    spec = feed(template, rng)
    for f in spec["epics"][0]["frame_sets"]:
        f["indicators"] = [dict(i) for i in rng.sample(INDICATORS, 2) if i["kind"] != "rsi" or f["q"] <= (f["max"] or 100)]
    return spec


def feed(template, rng):
    kw = dict(tick_sets=0, gap=0.25, per_frame=rng.choice([0.3, 0.7, 1, 2]))
    if template == "dst":
        kw.update(dst=True, cap=150, families=[["MINUTE"], ["HOUR"], ["DAY", "HOUR"], ["DAY"]], max_gap=10)
    if template == "evict":
        kw.update(maxes=(1, 2, 3), max_gap=8)
    if template == "long":
        kw.update(nsets=1, max_gap=60, cap=500, maxes=(None, 3))
        return chart.chart_spec(rng, 120, **kw)
    if template == "abyss":
        # a few ticks around one very long hole
        kw.update(nsets=1, gap=0, cap=5000, maxes=(None, 40, 4000), families=[["SECOND"], ["MINUTE"], ["HOUR"], ["DAY"]])
        spec = chart.chart_spec(rng, 8, **kw)
        f = spec["epics"][0]["frame_sets"][0]
        hole = rng.choice([150, 400, 1000, 2500]) * chart.frame_len(f)
        late = [[e, t + hole] + rest for e, t, *rest in spec["feed"][4:] if t + hole < LAST]
        spec["feed"] = spec["feed"][:4] + late
        return spec
    return chart.chart_spec(rng, rng.choice([12, 40]), **kw)


class Listener(chart.ChartListener):
    def after_tick(self, world, i, e, tick):
        mon = self.mon
        for k, (fs, model, fspec) in enumerate(self.rows(world, e)):
            hole = max(0, self.created[k] - 1) if len(model.frames) > 1 else 0
            if not hole:
                continue
            mon.nontrivial = True
            frames = list(fs.frames)
            ctx = (fspec["unit"], fspec["q"], "tick %d" % i, "hole of %d" % hole)
            shown = min(hole, len(frames) - 1, model.max - 1)
            mon.ok(len(frames) >= min(hole + 1, model.max), "filled", "only %s frames after the %s", len(frames), ctx)
            if hole >= model.max:
                mon.ev("holes_longer_than_memory")
            mon.ok(frames[-1].first_tick is tick, "filled", "the tick ending the %s does not start a frame", ctx)
            carried = model.frames[-2].carried
            starts = []
            for pos in range(1, shown + 1):
                f, w = frames[-1 - pos], model.frames[-1 - pos]
                mon.ev("gap_frames")
                starts.append(instant(f.period_start))
                mon.ok(instant(f.period_start) == w.start and instant(f.period_end) == w.end, "filled",
                       "frame %d of the %s covers %s", hole - pos + 1, ctx, (f.period_start, f.period_end))
                for name in ("first_tick", "high_tick", "low_tick", "last_tick"):
                    mon.ok(getattr(f, name) is carried, "carried",
                           "%s of frame %d of the %s is %s instead of the tick carried forward %s", name,
                           hole - pos + 1, ctx, getattr(f, name), carried)
                mon.ok(f.nb_ticks == 1, "carried", "frame %d of the %s counts %s ticks", hole - pos + 1, ctx, f.nb_ticks)
            for pos in range(0, shown + 1):
                if pos < 3 or pos > shown - 3:
                    self.indicators(model, frames, pos, fspec, ctx)
            if len(frames) > hole + 1:
                f, w = frames[-2 - hole], model.frames[-2 - hole]
                mon.ok(f.last_tick is carried and instant(f.period_start) == w.start, "filled",
                       "the frame before the %s is not the expected one", ctx)
            mon.sig(hole, carried.value)

    def indicators(self, model, frames, pos, fspec, ctx):
        """What the indicators show on a frame of the gap, or on the one which follows it."""
        mon = Renamed(self.mon)
        f, w, closed = frames[-1 - pos], model.frames[-1 - pos], pos > 0
        before = model.frames[w.number - 1].all if w.number else None
        for i in fspec["indicators"]:
            v, about = f[i["ref"]], ctx + (i["ref"], "frame -%d" % (pos + 1), "max %d" % model.max)
            mon.ok(v is not None, "", "no value %s", about)
            if pos:
                mon.ok(all(getattr(v, n) is w.carried for n in ("first_tick", "high_tick", "low_tick", "last_tick")), "",
                       "the value is not about the tick carried forward %s", about)
            closes = [x.last.value for x in model.frames[max(0, w.number - 80): w.number + 1]]
            if i["kind"] == "candle":
                indic.judge_candle(mon, v, w.all, closed, about)
            elif i["kind"] == "ha":
                prev = frames[-2 - pos]["h"] if len(frames) > pos + 1 else None
                indic.judge_ha(mon, v, w.all, prev, closed, about, judge_open=prev is not None)
            elif i["kind"] == "sma":
                indic.judge_sma(mon, v, closes[-i["n"]:], i["n"], about)
            elif i["kind"] == "rsi":
                periods = i["n"] * fspec["q"]
                indic.judge_rsi(mon, v, closes[-periods - 1:], periods, about)
            else:
                indic.judge_pivot(mon, v, i["kind"], w.all, before, about)


class Renamed:
    """All that is judged counts as one thing."""

    def __init__(self, mon):
        self.mon = mon

    def ok(self, fine, key, *what):
        self.mon.ok(fine, "indicators", *what)

    def near(self, got, want, tolerance, key, *what):
        self.mon.near(got, want, tolerance, "indicators", *what)


def run(spec, mon):
    World(spec, Listener(spec, mon)).run()
