"""C17: pivot points derive from the previous period."""
from estmon import chart, indic
from estmon.props import c20
from estmon.world import World

PROP = "C17"
TEMPLATES = [("mixed", 420, 7000), ("zero", 160, 2500), ("coarse", 60, 900), ("long", 8, 120), ("hours", 80, 1500)]
RULE = ("seeded feeds (hostile dates, gaps, equal, zero and negative prices) into 1-3 frame sets, in template hours with indicators restricted to market hours; non-trivial: a pivot over a previous period of at least 2 different values was observed; distinct: hash of the pivots observed")
REQUIRED = tuple("judged:" + k for k in ("pivot", "no_past") + indic.PIVOT_LEVELS)
SHRINK = ("feed",)
ASSUMPTIONS = []


def gen(template, rng):
    if template == "hours":
        return c20.gen(template, rng, only=("pivot", "olhc"))
    kw = {"mixed": {}, "zero": {"price": "zero"}, "long": {"nsets": 1, "cap": 300},
          "coarse": {"families": [["DAY"], ["WEEK"], ["MONTH"], ["DAY", "WEEK"]], "tick_sets": 0}}[template]
    spec = chart.chart_spec(rng, {"long": 500}.get(template, rng.choice([10, 40, 80])), **kw)
    for f in spec["epics"][0]["frame_sets"]:
        f["indicators"] = [{"kind": "pivot", "ref": "p"}, {"kind": "olhc", "ref": "o"}]
        rng.shuffle(f["indicators"])
    return spec


class Listener(chart.ChartListener):
    def after_tick(self, world, i, e, tick):
        mon = self.mon
        for (fs, model, fspec) in self.rows(world, e):
            full = i % 16 == 0 or i == len(world.spec["feed"]) - 1
            for frame, want in self.pairs(fs, model, full):
                for ind in fspec["indicators"]:
                    ctx = ("frame %d" % want.number, fspec["unit"], fspec["q"], "max %d" % model.max, "tick %d" % i,
                           ind["kind"], ind.get("n"))
                    v = frame[ind["ref"]]
                    mon.ok(v is not None, "present", "no indicator value on %s", ctx)
                    past = model.frames[want.number - 1].all if want.number else None
                    indic.judge_pivot(mon, v, ind["kind"], want.all, past, ctx)
                    if past and len({t.value for t in past}) > 1:
                        mon.nontrivial = True
            cur = fs.current["p"], fs.current["o"]
            mon.sig(cur[0].pivot, cur[1].pivot, cur[1].support3)


def run(spec, mon):
    listener = c20.Listener if spec.get("restricted") else Listener
    World(spec, listener(spec, mon)).run()
