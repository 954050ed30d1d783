"""C21: what a closed frame and its indicators show never changes while the frame is kept."""
from estmon import chart, snap
from estmon.world import World

PROP = "C21"
TEMPLATES = [("mixed", 300, 5000), ("small", 140, 2200), ("hours", 140, 2200), ("long", 8, 120), ("dst", 60, 900)]
RULE = ("seeded feeds into frame sets with all kinds of indicators; every kept closed frame is compared after every tick "
        "with what it showed as the current frame and when it closed; non-trivial: a frame was compared after at least "
        "3 later ticks; distinct: hash of the frames at their close")
REQUIRED = ("judged:at_close", "judged:later", "late_comparisons")
SHRINK = ("feed",)
ASSUMPTIONS = []


def gen(template, rng):
    kw = {"mixed": {}, "small": {"maxes": (2, 2, 3, 4)}, "hours": {"always": 0.02},
          "long": {"nsets": 1, "cap": 250, "maxes": (None, 30)}, "dst": {"dst": True, "cap": 80}}[template]
    spec = chart.chart_spec(rng, 260 if template == "long" else rng.choice([15, 40, 70]), **kw)
    for f in spec["epics"][0]["frame_sets"]:
        keep = f["max"] or 100
        pool = [{"kind": "candle"}, {"kind": "ha"}, {"kind": "pivot"}, {"kind": "olhc"}, {"kind": "sma", "n": 3},
                {"kind": "sma", "n": 1}]
        if f["q"] <= keep:
            pool.append({"kind": "rsi", "n": rng.randrange(1, max(1, min(4, keep // f["q"])) + 1)})
        pool = rng.sample(pool, rng.randrange(2, len(pool)))
        f["indicators"] = [dict(p, ref=f"i{k}", moo=rng.random() < 0.3) for k, p in enumerate(pool)]
    return spec


class Listener(chart.ChartListener):
    def __init__(self, spec, mon):
        super().__init__(spec, mon)
        self.last = {}  # frame set -> (frame, snapshot) of the current frame
        self.old = {}  # frame set -> [(frame, snapshot, tick)]

    def compare(self, old, new, key, ctx, closing=False):
        def flat(s):
            return {k: v for k, v in s.items() if not (closing and k.rpartition(".")[2] in snap.CLOSING)}

        d = snap.diff(flat(old), flat(new))
        self.mon.ok(d is None, key, "%s: %s", ctx, d)

    def after_tick(self, world, i, e, tick):
        mon = self.mon
        for k, (fs, model, fspec) in enumerate(self.rows(world, e)):
            frames = list(fs.frames)
            ids = {id(f) for f in frames}
            old = self.old.setdefault(k, [])
            ctx = (fspec["unit"], fspec["q"], "tick %d" % i)
            prev = self.last.get(k)
            new_old = []
            for f, s, at in old:
                if id(f) not in ids:
                    continue
                now = snap.frame(f, fspec)
                self.compare(s, now, "later", ("a frame closed at tick %d changed" % at,) + ctx)
                if i - at >= 3:
                    mon.ev("late_comparisons")
                    mon.nontrivial = True
                new_old.append((f, s, at))
            known = {id(f) for f, _, _ in new_old}
            for f in frames[:-1]:
                if id(f) in known:
                    continue
                now = snap.frame(f, fspec)
                if prev and prev[0] is f:
                    self.compare(prev[1], now, "at_close", ("closing the frame changed it",) + ctx, True)
                mon.sig(now)
                new_old.append((f, now, i))
            self.old[k] = new_old
            self.last[k] = (frames[-1], snap.frame(frames[-1], fspec))


def run(spec, mon):
    World(spec, Listener(spec, mon)).run()
