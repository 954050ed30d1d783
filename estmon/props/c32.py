"""C32: looking back n frames finds the n-th latest frame (or nothing), values and neighbours included."""
from estmon import chart
from estmon.world import World

PROP = "C32"
TEMPLATES = [("mixed", 400, 6000), ("small", 150, 2500), ("long", 8, 120)]
RULE = ("seeded feeds into 1-3 frame sets with restricted and unrestricted indicators; every offset from 0 to beyond "
        "what is kept is looked up through the epic, the frame set and the chains; non-trivial: an offset beyond what is "
        "kept and at least 3 kept ones were looked up; distinct: hash of (frames, kept) sequences")
REQUIRED = ("judged:frame", "judged:none", "judged:value", "judged:previous", "judged:next")
SHRINK = ("feed",)
ASSUMPTIONS = ["offsets are not negative"]


def gen(template, rng):
    kw = {"mixed": {"maxes": (1, 3, 5, 10, None)}, "small": {"maxes": (1, 2, 3)},
          "long": {"nsets": 1, "cap": 250, "maxes": (None, 30)}}[template]
    spec = chart.chart_spec(rng, 300 if template == "long" else rng.choice([10, 30, 50]), always=0.1, **kw)
    for k, f in enumerate(spec["epics"][0]["frame_sets"]):
        kinds = rng.sample([{"kind": "candle"}, {"kind": "ha"}, {"kind": "pivot"}, {"kind": "sma", "n": 3}],
                           rng.randrange(1, 4))
        f["indicators"] = [dict(p, ref=f"x{j}", moo=rng.random() < 0.5) for j, p in enumerate(kinds)]
    return spec


class Listener(chart.ChartListener):
    def after_tick(self, world, i, e, tick):
        if i % 3 and i < len(world.spec["feed"]) - 1 and not any(self.created):
            return
        mon = self.mon
        epic = world.epics[e]
        for (fs, model, fspec) in self.rows(world, e):
            kept = min(len(model.frames), model.max)
            ref = fspec["ref"]
            ctx = (fspec["unit"], fspec["q"], "max %d" % model.max, "tick %d" % i, "%d frames" % len(model.frames))
            frames = []
            for offset in range(kept):
                f = epic.get_frame(ref, offset)
                mon.ok(f is not None, "frame", "no frame at offset %s %s", offset, ctx)
                w = model.frames[-1 - offset]
                mon.ok(f.last_tick is w.last and f.first_tick is w.all[0], "frame", "wrong frame at offset %s %s", offset,
                       ctx)
                mon.ok(fs[-1 - offset] is f and fs[kept - 1 - offset] is f, "frame",
                       "the frame set disagrees at offset %s %s", offset, ctx)
                mon.ok(f.parent_frameset is fs, "frame", "parent of the frame %s", ctx)
                frames.append(f)
            mon.ok(fs.current is frames[0], "frame", "current frame %s", ctx)
            for offset in (kept, kept + 1, kept + 2, kept + 5, 2 * kept, 3 * kept + 1, 1000):
                mon.ok(epic.get_frame(ref, offset) is None, "none", "a frame at offset %s of %s kept %s", offset, kept, ctx)
                mon.ok(epic.get_indicator_value(ref, fspec["indicators"][0]["ref"], offset) is None, "none",
                       "a value at offset %s of %s kept %s", offset, kept, ctx)
            for offset in range(kept):
                f = frames[offset]
                mon.ok(f.previous_frame is (frames[offset + 1] if offset + 1 < kept else None), "previous",
                       "previous frame at offset %s %s", offset, ctx)
                mon.ok(f.next_frame is (frames[offset - 1] if offset else None), "next", "next frame at offset %s %s",
                       offset, ctx)
                mon.ok(f["not registered"] is None, "none", "a value for an unknown indicator %s", ctx)
                for ind in fspec["indicators"]:
                    v = epic.get_indicator_value(ref, ind["ref"], offset)
                    mon.ok(v is f[ind["ref"]], "value", "value of %s at offset %s %s", ind["ref"], offset, ctx)
                    w = model.frames[-1 - offset]
                    if not w.gap:
                        mon.ok((v is not None) == (not ind["moo"] or bool(w.open_ticks)), "value",
                               "presence of %s at offset %s %s", ind["ref"], offset, ctx)
                    if v is None:
                        continue
                    mon.ok(v.frame is f and v.indicator is fs.indicators[ind["ref"]] and v.indicator.epic is epic, "value",
                           "owner of %s at offset %s %s", ind["ref"], offset, ctx)
                    mon.ok(v.nb_ticks == f.nb_ticks and v.closed is (offset > 0), "value", "flags of %s %s", ind["ref"], ctx)
                    want = None
                    for o in range(offset + 1, kept):
                        want = frames[o][ind["ref"]]
                        if want is not None:
                            break
                    mon.ok(v.previous is want, "previous", "previous value of %s at offset %s %s", ind["ref"], offset, ctx)
                    mon.ok(v.next is (frames[offset - 1][ind["ref"]] if offset else None), "next",
                           "next value of %s at offset %s %s", ind["ref"], offset, ctx)
            mon.sig(len(model.frames), kept)
            if kept >= 3:
                mon.nontrivial = True


def run(spec, mon):
    World(spec, Listener(spec, mon)).run()
