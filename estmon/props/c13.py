"""C13: a frame set keeps exactly its most recent frames, correctly chained, and nothing older."""
import gc
import weakref

from estmon import chart
from estmon.world import World

PROP = "C13"
TEMPLATES = [("links", 400, 6000), ("memory", 160, 2400), ("growth", 24, 320), ("default", 12, 160), ("resized", 100, 1500)]
RULE = ("seeded feeds producing more frames than kept, with all kinds of indicators; object graph and weak references "
        "inspected after garbage collection; non-trivial: at least one frame was evicted; distinct: hash of the "
        "sequence of (frames created, frames kept)")
REQUIRED = ("judged:kept", "judged:link", "judged:released", "judged:growth", "frames_evicted", "resized")
SHRINK = ()
ASSUMPTIONS = ["CPython reference counting and gc decide what is still in memory"]


def gen(template, rng):
    if template in ("links", "default", "resized"):
        big = template == "default"
        spec = chart.chart_spec(rng, 420 if big else rng.choice([30, 80]), nsets=1 if big else None,
                                maxes=(None, 100, 64) if big else (1, 2, 3, 4, 7, 20), cap=300 if big else 150,
                                per_frame=1)
    elif template == "memory":
        spec = chart.chart_spec(rng, rng.choice([40, 90]), maxes=(1, 2, 3, 5, 9), cap=120, per_frame=rng.choice([1, 3]))
    else:
        frames = [{"unit": "TICK", "q": rng.choice([1, 1, 2]), "ref": "F0", "max": rng.choice([1, 2, 5, 12]),
                   "indicators": []}]
        spec = chart.chart_spec(rng, 600, frames=frames)
    for f in spec["epics"][0]["frame_sets"]:
        keep = f["max"] or 100
        pool = [{"kind": "candle"}, {"kind": "ha"}, {"kind": "pivot"}, {"kind": "olhc"},
                {"kind": "sma", "n": rng.choice([1, 2, 5])}]
        if f["q"] <= keep and template != "resized":
            pool.append({"kind": "rsi", "n": max(1, min(3, keep // f["q"]))})
        rng.shuffle(pool)
        chosen = pool if template == "growth" else pool[: rng.randrange(0, 5)]
        f["indicators"] = [dict(p, ref=f"{p['kind']}{k}", moo=template != "growth" and rng.random() < 0.3)
                           for k, p in enumerate(chosen)]
    if template == "resized":
        # the number of frames to keep is changed between ticks
        spec["resize"] = {str(i): [rng.randrange(8), rng.choice([1, 2, 3, 4, 5, 8, 15, 40])] for i in range(len(spec["feed"]))
                          if rng.random() < 0.08}
    return spec


def weak(o):
    try:
        return weakref.ref(o)
    except TypeError:
        # objects with slots: template growth decides alone
        return lambda: None


class Listener(chart.ChartListener):
    """Holds weak references only: the model works on tick numbers."""

    def before_tick(self, world, i, e, tick):
        us = world.spec["feed"][i][1]
        self.open_now = chart.is_open(world.spec["epics"][e], us)
        change = world.spec.get("resize", {}).get(str(i))
        if change and change[0] < len(world.frame_sets[e]):
            world.frame_sets[e][change[0]].max_frames_in_memory = change[1]
            self.models[e][change[0]].max = change[1]
            self.mon.ev("resized")
        self.created = [m.on_tick(us, i, self.open_now) for m in self.models[e]]
        self.ticks.append(weak(tick))

    def after_tick(self, world, i, e, tick):
        mon = self.mon
        template = world.spec.get("template")
        for k, (fs, model, fspec) in enumerate(self.rows(world, e)):
            frames = list(fs.frames)
            if self.created[k]:
                self.kept[k] = min(self.kept[k] + self.created[k], model.max)
            want = self.kept[k]
            if not self.created[k] and model.max <= len(frames) < want:
                # a lower number is applied at the next frame at the latest
                want = self.kept[k] = len(frames)
            ctx = ("tick %d" % i, fspec["unit"], fspec["q"], "max %d" % model.max)
            mon.ok(len(frames) == want, "kept", "%s frames kept instead of %s %s", len(frames), want, ctx)
            refs = self.seen[k]
            known = {r(): n for n, r in list(refs.items())[-want - 60:] if r() is not None}
            for pos, f in enumerate(frames):
                mon.ok(f.previous_frame is (frames[pos - 1] if pos else None), "link",
                       "previous of kept frame %s/%s %s", pos, len(frames), ctx)
                last = pos == len(frames) - 1
                mon.ok(f.next_frame is (None if last else frames[pos + 1]), "link", "next of kept frame %s/%s %s", pos,
                       len(frames), ctx)
                mon.ok(f.closed is (not last), "closed", "closed flag of kept frame %s/%s %s", pos, len(frames), ctx)
                number = len(model.frames) - len(frames) + pos
                if f in known:
                    mon.ok(known[f] == number, "kept", "frame %s stands where frame %s should %s", known[f], number,
                           ctx)
                else:
                    refs[number] = weak(f)
            evicted = len(model.frames) - len(frames)
            if evicted > 0:
                mon.ev("frames_evicted", sum(self.created[k:k + 1]))
                mon.nontrivial = True
            mon.sig(len(model.frames), len(frames))
            known.clear()
        frames = f = None
        n = len(world.spec["feed"])
        if template in ("memory", "links") and (i == n - 1 or i % 29 == 28):
            self.released(world, e, i)
        if template == "growth" and i in (n // 2, n - 1):
            self.growth(world, e, i, n)

    def released(self, world, e, i):
        gc.collect()
        alive = {n for n, r in enumerate(self.ticks) if r() is not None}
        allowed = {i}
        for k, (fs, model, fspec) in enumerate(self.rows(world, e)):
            for w in model.retained():
                allowed.update(w.all)
            first = len(model.frames) - min(len(model.frames), model.max)
            for number, r in self.seen[k].items():
                if number < first:
                    self.mon.ok(r() is None, "released", "frame %s is still in memory, %s are kept from %s", number,
                                model.max, first)
        # a tick may be sent several times
        kept = {id(self.ticks[n]()) for n in allowed}
        allowed |= {n for n in alive if id(self.ticks[n]()) in kept}
        self.mon.ok(alive <= allowed, "released", "after tick %s, ticks %s are in memory although they belong to no "
                    "kept frame", i, sorted(alive - allowed)[:5])

    def growth(self, world, e, i, n):
        """Objects (weighted by the size of containers) reachable from the frame sets."""
        gc.collect()
        total = 0
        for fs in world.frame_sets[e]:
            seen = {id(world.epics[e]), id(world), id(self)}
            stack = [fs]
            while stack:
                o = stack.pop()
                if id(o) in seen or isinstance(o, type) or type(o).__name__ in (
                        "module", "function", "method", "tzutc", "tzfile", "builtin_function_or_method"):
                    continue
                seen.add(id(o))
                total += 1 + (len(o) if isinstance(o, (list, dict, tuple, set)) else 0)
                stack.extend(gc.get_referents(o))
        if i == n // 2:
            self.half = total
        else:
            self.mon.ok(total <= self.half * 1.5 + 200, "growth",
                        "%s objects held at the end against %s at the middle of the feed, with as many frames kept",
                        total, self.half)


def run(spec, mon):
    listener = Listener(spec, mon)
    listener.ticks = []
    listener.kept = [0 for _ in spec["epics"][0]["frame_sets"]]
    listener.seen = [dict() for _ in spec["epics"][0]["frame_sets"]]
    world = World(spec, listener)
    # the world must not keep the ticks alive itself
    for i in range(len(spec["feed"])):
        world.feed(i)
        world.current_tick = None
