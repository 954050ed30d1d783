"""C16: Heikin Ashi candles follow their recurrence."""
from estmon import chart, indic
from estmon.props import c20
from estmon.world import World

PROP = "C16"
TEMPLATES = [("mixed", 420, 7000), ("zero", 120, 2000), ("small", 120, 2000), ("long", 12, 160), ("hours", 80, 1500)]
RULE = ("seeded feeds (hostile dates, gaps, equal, zero and negative prices) into 1-3 frame sets, in template hours with indicators restricted to market hours; each open is judged against the observed previous candle; non-trivial: at least 4 chained candles were observed; distinct: hash of the candles observed")
REQUIRED = tuple("judged:" + k for k in ("open", "high", "low", "last", "close", "color", "height", "body", "head", "tail"))
SHRINK = ("feed",)
ASSUMPTIONS = ["the open of a candle whose predecessor was dropped before it could be looked at is not judged"]


def gen(template, rng):
    if template == "hours":
        return c20.gen(template, rng, only=("ha",))
    kw = {"mixed": {}, "zero": {"price": "zero"}, "small": {"maxes": (1, 2, 2, 3)},
          "long": {"nsets": 1, "cap": 900, "maxes": (3, None, 1500), "tick_sets": 0.5}}[template]
    spec = chart.chart_spec(rng, {"long": 900}.get(template, rng.choice([10, 40, 80])), **kw)
    for f in spec["epics"][0]["frame_sets"]:
        f["indicators"] = [{"kind": "ha", "ref": "h"}]
    return spec


class Listener(chart.ChartListener):
    def __init__(self, spec, mon):
        super().__init__(spec, mon)
        self.seen = {}  # frame set -> frame number -> what its candle was last seen to show

    def after_tick(self, world, i, e, tick):
        mon = self.mon
        for k, (fs, model, fspec) in enumerate(self.rows(world, e)):
            seen = self.seen.setdefault(k, {})
            full = i % 16 == 0 or i == len(world.spec["feed"]) - 1
            for frame, want in reversed(list(self.pairs(fs, model, full))):
                for ind in fspec["indicators"]:
                    ctx = ("frame %d" % want.number, fspec["unit"], fspec["q"], "max %d" % model.max, "tick %d" % i,
                           ind["kind"], ind.get("n"))
                    v = frame[ind["ref"]]
                    mon.ok(v is not None, "present", "no indicator value on %s", ctx)
                    prev = seen.get(want.number - 1)
                    seen[want.number] = indic.Seen(v)
                    indic.judge_ha(mon, v, want.all, prev, frame is not fs.frames[-1], ctx,
                                   judge_open=want.number == 0 or prev is not None)
            cur = fs.current["h"]
            mon.sig(cur.open, cur.high, cur.low, cur.last)
            if len(model.frames) >= 4:
                mon.nontrivial = True


def run(spec, mon):
    listener = c20.Listener if spec.get("restricted") else Listener
    World(spec, listener(spec, mon)).run()
