"""C18: moving averages are the means of the last values of the latest periods."""
from estmon import chart, indic
from estmon.props import c20
from estmon.world import World

PROP = "C18"
TEMPLATES = [("mixed", 360, 6000), ("zero", 80, 1200), ("small", 120, 2000), ("gaps", 60, 1000), ("long", 12, 150), ("hours", 80, 1500)]
RULE = ("seeded feeds (hostile dates, gaps, equal, zero and negative prices) into 1-3 frame sets, in template hours with indicators restricted to market hours; averages of 1 to max+2 periods asked on every kept frame; non-trivial: an average over at least 2 periods was observed; distinct: hash of the averages observed")
REQUIRED = ("judged:average", "judged:none")
SHRINK = ("feed",)
ASSUMPTIONS = []


def gen(template, rng):
    if template == "hours":
        return c20.gen(template, rng, only=("sma",))
    kw = {"mixed": {}, "zero": {"price": "zero"}, "small": {"maxes": (1, 2, 2, 3)}, "gaps": {"gap": 0.3},
          "long": {"nsets": 1, "cap": 600, "maxes": (3, None, 150), "per_frame": 1}}[template]
    spec = chart.chart_spec(rng, {"long": 500}.get(template, rng.choice([10, 30, 60])), **kw)
    for f in spec["epics"][0]["frame_sets"]:
        ns = rng.sample([1, 2, 3, 5, 8, 14, 20, 50], rng.randrange(1, 4))
        if template == "long":
            ns = ns[:1] + rng.sample([100, 128, 150, 200, 256, 300, 365], 2)
        f["indicators"] = [{"kind": "sma", "ref": f"s{n}", "n": n} for n in ns]
    return spec


class Listener(chart.ChartListener):
    def after_tick(self, world, i, e, tick):
        mon = self.mon
        for (fs, model, fspec) in self.rows(world, e):
            full = i % 16 == 0 or i == len(world.spec["feed"]) - 1
            for frame, want in self.pairs(fs, model, full):
                for ind in fspec["indicators"]:
                    ctx = ("frame %d" % want.number, fspec["unit"], fspec["q"], "max %d" % model.max, "tick %d" % i,
                           ind["kind"], ind.get("n"))
                    v = frame[ind["ref"]]
                    mon.ok(v is not None, "present", "no indicator value on %s", ctx)
                    closes = [w.last.value for w in model.frames[max(0, want.number - ind["n"]): want.number + 1]]
                    asked = None
                    if ind["n"] > 8:
                        asked = [1, 2, ind["n"] - 1, ind["n"], ind["n"] + 1]
                    indic.judge_sma(mon, v, closes, ind["n"], ctx, asked)
            for ind in fspec["indicators"]:
                got = fs.current[ind["ref"]].get_value(ind["n"])
                mon.sig(got)
                if got is not None and ind["n"] > 1:
                    mon.nontrivial = True


def run(spec, mon):
    listener = c20.Listener if spec.get("restricted") else Listener
    World(spec, listener(spec, mon)).run()
