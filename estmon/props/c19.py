"""C19: the relative strength index follows its definition over the latest changes."""
from estmon import chart, indic
from estmon.props import c20
from estmon.world import World

PROP = "C19"
TEMPLATES = [("mixed", 360, 6000), ("zero", 80, 1200), ("flat", 80, 1200), ("small", 120, 2000), ("gaps", 60, 1000), ("long", 8, 120), ("hours", 80, 1500)]
RULE = ("seeded feeds (hostile dates, gaps, equal, zero and negative prices) into 1-3 frame sets, in template hours with indicators restricted to market hours; non-trivial: an index strictly between 0 and 100 was observed; distinct: hash of the indexes observed")
REQUIRED = ("judged:value", "judged:none", "judged:range")
SHRINK = ("feed",)
ASSUMPTIONS = []


def gen(template, rng):
    if template == "hours":
        return c20.gen(template, rng, only=("rsi",))
    kw = {"mixed": {}, "zero": {"price": "zero"}, "flat": {"price": rng.choice(["flat", "coarse"])},
          "small": {"maxes": (1, 2, 3, 5)}, "gaps": {"gap": 0.3},
          "long": {"nsets": 1, "cap": 600, "maxes": (20, None, 150), "per_frame": 1}}[template]
    spec = chart.chart_spec(rng, {"long": 500}.get(template, rng.choice([10, 30, 60])), **kw)
    for f in spec["epics"][0]["frame_sets"]:
        keep = f["max"] or 100
        if f["q"] > keep:
            f["q"] = 1
        ns = [n for n in (1, 2, 3, 5, 7, 14, 20) if n * f["q"] <= keep]
        f["indicators"] = [{"kind": "rsi", "ref": f"r{n}", "n": n} for n in rng.sample(ns, min(len(ns), 2))]
    spec["feed"] = spec["feed"][: min([len(spec["feed"])] + [
        chart.count_frames(f, spec["epics"][0]["tz"], spec["feed"], 600)
        for f in spec["epics"][0]["frame_sets"] if f["unit"] != "TICK"])]
    return spec


class Listener(chart.ChartListener):
    def after_tick(self, world, i, e, tick):
        mon = self.mon
        for (fs, model, fspec) in self.rows(world, e):
            full = i % 16 == 0 or i == len(world.spec["feed"]) - 1
            for frame, want in self.pairs(fs, model, full):
                for ind in fspec["indicators"]:
                    ctx = ("frame %d" % want.number, fspec["unit"], fspec["q"], "max %d" % model.max, "tick %d" % i,
                           ind["kind"], ind.get("n"))
                    v = frame[ind["ref"]]
                    mon.ok(v is not None, "present", "no indicator value on %s", ctx)
                    periods = ind["n"] * fspec["q"]
                    closes = [w.last.value for w in model.frames[max(0, want.number - periods): want.number + 1]]
                    indic.judge_rsi(mon, v, closes, periods, ctx)
            for ind in fspec["indicators"]:
                got = fs.current[ind["ref"]].value
                mon.sig(got)
                if got is not None and 0 < got < 100:
                    mon.nontrivial = True


def run(spec, mon):
    listener = c20.Listener if spec.get("restricted") else Listener
    World(spec, listener(spec, mon)).run()
