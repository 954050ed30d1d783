"""C20: indicators restricted to market hours only know the ticks received while the market is open."""
from estmon import chart, indic
from estmon.world import World

PROP = "C20"
TEMPLATES = [("mixed", 360, 6000), ("daily", 160, 2500), ("small", 120, 2000), ("intraday", 160, 2500),
             ("long", 10, 150)]
RULE = ("seeded feeds crossing market opens and closes exactly and by 1us, holidays and week-ends, into frame sets with "
        "both restricted and unrestricted indicators; non-trivial: a restricted indicator skipped a frame and another "
        "frame holds ticks of both kinds; distinct: hash of the presence and values observed")
REQUIRED = ("judged:present", "judged:absent", "judged:open", "judged:pivot", "judged:average", "judged:value",
            "mixed_frames", "skipped_frames")
SHRINK = ("feed",)
ASSUMPTIONS = ["whether a frame created to fill a gap has a restricted indicator is not judged (only its content)",
               "moving averages and relative strength indexes use the last value of the whole frame, as documented",
               "values chained to a frame which was dropped before they were created are not judged"]

KINDS = [{"kind": "candle"}, {"kind": "ha"}, {"kind": "pivot"}, {"kind": "olhc"}, {"kind": "sma", "n": 2},
         {"kind": "sma", "n": 5}, {"kind": "rsi", "n": 1}, {"kind": "rsi", "n": 3}]


def gen(template, rng, only=None):
    fam = {"daily": [["DAY"], ["DAY", "WEEK"], ["HOUR", "DAY"]], "intraday": [["MINUTE"], ["HOUR"], ["MINUTE", "HOUR"]]}
    n, per_frame = (400, rng.choice([40, 200])) if template == "long" else (rng.choice([20, 50, 90]), rng.choice([1, 3, 6]))
    spec = chart.chart_spec(rng, n, always=0.03, families=fam.get(template), maxes=(1, 2, 3) if template == "small" else (None, None, 7),
                            cap=95, gap=0.08, tick_sets=0.15, per_frame=per_frame, nsets=1 if template == "long" else None)
    e = spec["epics"][0]
    if rng.random() < 0.6 and spec["feed"]:
        # market hours around what the feed really crosses
        from estmon.timeutil import local

        a, b = sorted(local(rng.choice(spec["feed"])[1], e["tz"]).time() for _ in range(2))
        e["open"], e["close"] = a.isoformat(), b.isoformat()
        if rng.random() < 0.7:
            e["days"] = [0, 1, 2, 3, 4, 5, 6]
    for f in e["frame_sets"]:
        keep = f["max"] or 100
        offered = [k for k in KINDS if only is None or k["kind"] in only]
        kinds = [dict(k) for k in rng.sample(offered, min(len(offered), rng.randrange(2, 6)))]
        f["indicators"] = []
        for k, ind in enumerate(kinds):
            if ind["kind"] == "rsi" and ind["n"] * f["q"] > keep:
                continue
            f["indicators"].append(dict(ind, ref=f"m{k}", moo=True))
            if rng.random() < 0.3:
                f["indicators"].append(dict(ind, ref=f"a{k}", moo=False))
    if only:
        spec["restricted"] = True
    return spec


class Listener(chart.ChartListener):
    def __init__(self, spec, mon):
        super().__init__(spec, mon)
        self.has = {}  # (frame set, indicator, frame number) -> value present
        self.flags = set()
        self.start = {}  # frame set -> first frame which may hold values
        self.seen = {}  # (frame set, indicator, frame number) -> open and last observed on a candle

    def active(self, fspec):
        return True

    def after_tick(self, world, i, e, tick):
        mon = self.mon
        full = i % 16 == 0 or i == len(world.spec["feed"]) - 1
        for k, (fs, model, fspec) in enumerate(self.rows(world, e)):
            if not self.active(fspec):
                continue
            frames = list(fs.frames)
            first = len(model.frames) - len(frames)
            self.start.setdefault(k, max(0, len(model.frames) - 1 - self.created[k]))
            for ind in fspec["indicators"]:
                ref = ind["ref"]
                # presence
                for number in range(len(model.frames) - 1, first - 1, -1):
                    w, f = model.frames[number], frames[number - first]
                    present = f[ref] is not None
                    ctx = ("frame %d" % number, fspec["unit"], fspec["q"], "tick %d" % i, ind["kind"], ind.get("n"))
                    if w.gap:
                        self.has.setdefault((k, ref, number), present)
                    elif not ind["moo"] or w.open_ticks:
                        mon.ok(present, "present", "no value although the frame has ticks for it %s", ctx)
                        self.has[k, ref, number] = True
                        if ind["moo"] and len(w.open_ticks) < len(w.ticks):
                            mon.ev("mixed_frames")
                            self.flags.add("mixed")
                    else:
                        mon.ok(not present, "absent", "a value although the market never was open in the frame %s", ctx)
                        self.has[k, ref, number] = False
                        mon.ev("skipped_frames")
                        self.flags.add("skipped")
                    if not full and number < len(model.frames) - 3 - self.created[k]:
                        break
                stop = first if full else max(first, len(model.frames) - 2 - self.created[k])
                for number in range(stop, len(model.frames)):
                    v = frames[number - first][ref]
                    if v is not None:
                        if ind["kind"] == "ha":
                            self.seen[k, ref, number] = indic.Seen(v)
                        self.judge(k, fs, model, frames, first, number, ind, v, fspec, i)
                v = frames[-1][ref]
                mon.sig(ref, v is None or getattr(v, "last", None) or getattr(v, "pivot", None) or getattr(v, "value", None))
        mon.nontrivial = len(self.flags) == 2

    def ticks_of(self, w, ind):
        return w.all if w.gap or not ind["moo"] else w.open_ticks

    def judge(self, k, fs, model, frames, first, number, ind, v, fspec, i):
        mon = self.mon
        kind, ref = ind["kind"], ind["ref"]
        w = model.frames[number]
        ctx = ("frame %d" % number, fspec["unit"], fspec["q"], "tick %d" % i, kind, ind.get("n"), "restricted", ind["moo"])
        ticks = self.ticks_of(w, ind)
        closed = number < len(model.frames) - 1
        if kind == "candle":
            indic.judge_candle(mon, v, ticks, closed, ctx)
            return
        if kind in ("ha", "pivot", "olhc"):
            chained, complete = self.chain(k, model, ind, number, 2)
            if len(chained) < 2 and not complete:
                return
            prev = chained[1] if len(chained) > 1 else None
            if kind == "ha":
                pv = self.seen.get((k, ref, prev))
                indic.judge_ha(mon, v, ticks, pv, closed, ctx, judge_open=prev is None or pv is not None)
            else:
                past = self.ticks_of(model.frames[prev], ind) if prev is not None else None
                indic.judge_pivot(mon, v, kind, ticks, past, ctx)
        elif kind == "sma":
            chained, complete = self.chain(k, model, ind, number, ind["n"])
            if complete or len(chained) >= ind["n"]:
                closes = [model.frames[n].last.value for n in reversed(chained)]
                indic.judge_sma(mon, v, closes, ind["n"], ctx)
        elif kind == "rsi" and (model.max > 1 or not ind["moo"]):
            periods = ind["n"] * fspec["q"]
            chained, complete = self.chain(k, model, ind, number, periods)
            if complete or len(chained) >= periods:
                changes = [indic.exact(model.frames[n].last.value) - indic.exact(model.frames[n - 1].last.value)
                           for n in reversed(chained) if n > 0]
                indic.judge_rsi_changes(mon, v, changes, periods, ctx)

    def chain(self, k, model, ind, number, wanted):
        """Numbers of the latest frames with a value, newest first, each kept when the next one was created; whether
        they are all there is."""
        out = [number]
        for n in range(number - 1, self.start[k] - 1, -1):
            if len(out) >= wanted:
                return out, False
            has = self.has.get((k, ind["ref"], n))
            if has is None:
                return out, False  # dropped before it could be looked at
            if has:
                if n < out[-1] - model.max + ind["moo"]:
                    return out, False
                out.append(n)
        return out, True


def run(spec, mon):
    World(spec, Listener(spec, mon)).run()
