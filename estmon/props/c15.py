"""C15: classic candles summarise the ticks of their frame."""
from estmon import chart, indic
from estmon.props import c20
from estmon.world import World

PROP = "C15"
TEMPLATES = [("mixed", 420, 7000), ("zero", 150, 2500), ("dst", 60, 1000), ("dense", 40, 600), ("long", 8, 120), ("hours", 80, 1500)]
RULE = ("seeded feeds (hostile dates, gaps, equal, zero and negative prices) into 1-3 frame sets, in template hours with indicators restricted to market hours; non-trivial: a candle with a body and a shadow, over at least 3 ticks, was observed; distinct: hash of the candles observed")
REQUIRED = tuple("judged:" + k for k in ("open", "high", "low", "last", "close", "color", "height", "body", "head", "tail"))
SHRINK = ("feed",)
ASSUMPTIONS = []


def gen(template, rng):
    if template == "hours":
        return c20.gen(template, rng, only=("candle",))
    kw = {"mixed": {}, "zero": {"price": "zero"}, "dst": {"dst": True, "cap": 120},
          "dense": {"per_frame": 30}, "long": {"nsets": 1, "cap": 300}}[template]
    spec = chart.chart_spec(rng, {"long": 500, "dense": 120}.get(template, rng.choice([10, 40, 80])), **kw)
    for f in spec["epics"][0]["frame_sets"]:
        f["indicators"] = [{"kind": "candle", "ref": "c"}] + [{"kind": "candle", "ref": "c2"}] * rng.randrange(0, 2)
    return spec


class Listener(chart.ChartListener):
    def after_tick(self, world, i, e, tick):
        mon = self.mon
        for (fs, model, fspec) in self.rows(world, e):
            full = i % 16 == 0 or i == len(world.spec["feed"]) - 1
            for frame, want in self.pairs(fs, model, full):
                for ind in fspec["indicators"]:
                    ctx = ("frame %d" % want.number, fspec["unit"], fspec["q"], "max %d" % model.max, "tick %d" % i,
                           ind["kind"], ind.get("n"))
                    v = frame[ind["ref"]]
                    mon.ok(v is not None, "present", "no indicator value on %s", ctx)
                    indic.judge_candle(mon, v, want.all, frame is not fs.frames[-1], ctx)
            cur = fs.current[fspec["indicators"][0]["ref"]]
            mon.sig(cur.open, cur.high, cur.low, cur.last)
            if len(model.frames[-1].ticks) >= 3 and cur.body and (cur.head or cur.tail):
                mon.nontrivial = True


def run(spec, mon):
    listener = c20.Listener if spec.get("restricted") else Listener
    World(spec, listener(spec, mon)).run()
