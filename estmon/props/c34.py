"""C34: user defined indicators have one value per frame, told once of each tick before any strategy."""
from estmon import chart
from estmon.world import World

PROP = "C34"
TEMPLATES = [("mixed", 400, 6000), ("hours", 200, 3000), ("ticks", 100, 1500), ("gaps", 120, 1800), ("small", 120, 1800), ("dst", 100, 1500),
             ("long", 8, 120)]
RULE = ("seeded feeds into frame sets with 1-4 user defined indicators (restricted to market hours or not, whose values define a "
        "length, a truth, an equality or nothing, call their base class or not) among built-in ones; every creation and every "
        "notification is recorded with what it sees; non-trivial: notifications and creations of at least 3 frames; distinct: "
        "hash of the sequence of creations and notifications")
REQUIRED = ("judged:protocol", "judged:seen", "judged:early", "judged:found", "judged:state", "created", "told", "skipped", "gap_values", "late_births")
SHRINK = ("feed",)
ASSUMPTIONS = ["whether an indicator restricted to market hours has a value on a frame made for a hole is not judged",
               "the order of several indicators is not judged"]
FLAVOURS = ["plain", "plain", "zero", "sized", "false", "equal", "unequal", "free"]


def gen(template, rng):
    kw = {"mixed": {}, "hours": {"always": 0.02, "per_frame": rng.choice([2, 4, 8])}, "ticks": {"tick_sets": 1},
          "gaps": {"gap": 0.3, "max_gap": 12}, "small": {"maxes": (1, 2, 3)}, "long": {"per_frame": rng.choice([3, 60]), "nsets": 1, "cap": 250},
          "dst": {"dst": True, "cap": 120, "families": [["MINUTE"], ["HOUR"], ["DAY", "HOUR"]]}}[template]
    spec = chart.chart_spec(rng, 400 if template == "long" else rng.choice([15, 40, 80]), **kw)
    if template == "hours" and spec["feed"]:
        from estmon.timeutil import local

        e = spec["epics"][0]
        a, b = sorted(local(rng.choice(spec["feed"])[1], e["tz"]).time() for _ in range(2))
        e["open"], e["close"], e["days"] = a.isoformat(), b.isoformat(), [0, 1, 2, 3, 4, 5, 6]
    for f in spec["epics"][0]["frame_sets"]:
        inds = [{"kind": "custom", "ref": f"u{k}", "moo": rng.random() < 0.5, "flavour": rng.choice(FLAVOURS)}
                for k in range(rng.randrange(1, 5))]
        inds += [{"kind": k, "ref": k, "moo": rng.random() < 0.5} for k in rng.sample(["candle", "ha", "pivot"], rng.randrange(0, 3))]
        rng.shuffle(inds)
        f["indicators"] = inds
    spec["strategies"] = [{"epics": [0]}]
    return spec


def make_classes(L):
    """Value classes by flavour; what happens to them goes to the log of their indicator."""
    base = L.BaseIndicatorValue

    class Plain(base):
        def __init__(self, indicator, frame):
            super().__init__(indicator, frame)
            indicator.log.append(("new", self, frame, indicator.seen(frame)))
            self.heard = 0

        def on_new_tick(self, tick, market_open):
            super().on_new_tick(tick, market_open)
            self.heard += 1
            self.indicator.log.append(("tick", self, tick, (bool(market_open), self.indicator.seen(self.frame))))

    class Zero(Plain):
        def __len__(self):
            return 0

    class Sized(Plain):
        def __len__(self):
            return getattr(self, "heard", 0)

    class False_(Plain):
        def __bool__(self):
            return False

    class Equal(Plain):
        __hash__ = None

        def __eq__(self, other):
            return True

    class Unequal(Plain):
        __hash__ = None

        def __eq__(self, other):
            return False

    class Free(base):
        def __init__(self, indicator, frame):
            self.indicator, self.frame = indicator, frame
            indicator.log.append(("new", self, frame, indicator.seen(frame)))

        def on_new_tick(self, tick, market_open):
            self.indicator.log.append(("tick", self, tick, (bool(market_open), self.indicator.seen(self.frame))))

    return {"plain": Plain, "zero": Zero, "sized": Sized, "false": False_, "equal": Equal, "unequal": Unequal, "free": Free}


class Listener(chart.ChartListener):
    def __init__(self, spec, mon):
        super().__init__(spec, mon)
        self.world = None
        self.births = {}  # (frame set, ref) -> {frame number: value}
        self.starts = set()
        self.checked = -1

    def setup(self, world):
        L = world.L
        classes = make_classes(L)

        class Custom(L.BaseIndicator):
            def seen(self, frame):
                """What user code sees of the system when it is called."""
                e = frame.parent_frameset.epic
                return (frame.last_tick, e.last_tick, e.market_open, frame.previous_frame, self.frame_set is frame.parent_frameset,
                        self.epic is e, (frame.nb_ticks, frame.first_tick, frame.high_tick, frame.low_tick, frame.next_frame))

        self.customs = []
        for n, (fs, f) in enumerate(zip(world.frame_sets[0], world.spec["epics"][0]["frame_sets"])):
            for ind in f["indicators"]:
                if ind["kind"] == "custom":
                    c = Custom(value_class=classes[ind["flavour"]], ref=ind["ref"], market_open_only=ind["moo"])
                    c.log = []
                    fs.add_indicator(c)
                    self.customs.append((n, fs, ind, c))
                else:
                    from estmon.world import make_indicator

                    fs.add_indicator(make_indicator(L, ind))

    def before_tick(self, world, i, e, tick):
        super().before_tick(world, i, e, tick)
        self.tail = [fs.frames[-1] if fs.frames else None for fs in world.frame_sets[0]]
        for _, _, _, c in self.customs:
            del c.log[:]

    def on_callback(self, world, s, name, e):
        if self.checked != world.index:
            # everything was told before the first callback
            self.checked = world.index
            self.mon.ok(all(self.told(n, ind, c, world.current_tick) for n, _, ind, c in self.customs), "early",
                        "a strategy is called before an indicator knows the tick %s", world.index)

    def told(self, n, ind, c, tick):
        if ind["moo"] and not self.open_now:
            return True
        return any(x[2] is tick or x[0] == "new" and x[3][0] is tick for x in c.log)

    def after_tick(self, world, i, e, tick):
        mon = self.mon
        for n, fs, ind, c in self.customs:
            model, fspec = self.models[0][n], world.spec["epics"][0]["frame_sets"][n]
            births = self.births.setdefault((n, ind["ref"]), {})
            made = self.created[n]
            now = len(model.frames) - 1
            ctx = (fspec["unit"], fspec["q"], "restricted", ind["moo"], ind["flavour"], "tick %d" % i, "frames created %d" % made,
                   "market open %s" % self.open_now, [x[0] for x in c.log])
            log = list(c.log)
            # holes first, in order
            for number in range(now - made + 1, now):
                if log and log[0][0] == "new" and log[0][2] is not fs.frames[-1]:
                    _, value, frame, seen = log.pop(0)
                    if not ind["moo"]:
                        mon.ok(seen[0] is model.frames[number].carried, "seen", "another tick was carried %s", ctx)
                        k = len(model.frames) - number
                        mon.ok(k > len(fs.frames) or fs.frames[-k] is frame, "protocol", "created on another frame %s", ctx)
                        births[number] = value
                    mon.ev("gap_values")
                else:
                    mon.ok(ind["moo"], "protocol", "no value for a frame made for a hole %s", ctx)
            if now not in births:
                want = "new" if self.open_now or not ind["moo"] else None
            else:
                want = "tick"
            if want is None:
                mon.ok(not log, "protocol", "restricted, called while the market is closed %s", ctx)
                mon.ev("skipped")
                continue
            mon.ok(len(log) == 1 and log[0][0] == want, "protocol", "expected one %s %s", want, ctx)
            kind, value, what, info = log[0]
            if kind == "new":
                mon.ev("created")
                mon.ok(what is fs.frames[-1], "protocol", "created on another frame %s", ctx)
                births[now] = value
                self.starts.add((n, now))
                if not made:
                    mon.ev("late_births")
                seen = info
            else:
                mon.ev("told")
                mon.ok(what is tick, "protocol", "told of another tick %s", ctx)
                mon.ok(value is births[now], "protocol", "another value than the one of the frame is told %s", ctx)
                mon.ok(info[0] is self.open_now, "seen", "told that the market is open: %s %s", info[0], ctx)
                seen = info[1]
            last, epic_last, is_open, previous, mine, epic, (count, first, high, low, following) = seen
            w = model.frames[now]
            values = [t.value for t in w.ticks]
            mon.ok(count == len(w.ticks) and first is w.ticks[0] and high is w.ticks[values.index(max(values))]
                   and low is w.ticks[values.index(min(values))] and following is None, "seen",
                   "the summary of the frame does not include the tick %s", ctx)
            mon.ok(last is tick, "seen", "the frame does not hold the tick yet %s", ctx)
            mon.ok(epic_last is tick and is_open is self.open_now, "seen", "the epic is not at the tick yet %s", ctx)
            mon.ok(mine and epic, "seen", "the indicator does not know its frame set and epic %s", ctx)
            if made == 1:
                mon.ok(previous is self.tail[n], "seen", "the previous frame is not the one before %s", ctx)
            # where programs find it
            found = world.epics[0].get_indicator_value(fs.ref, ind["ref"])
            mon.ok(found is value and fs.frames[-1][ind["ref"]] is value, "found", "the value is not found %s", ctx)
            self.state(ind, model.frames[now], value, ctx)
            mon.sig(n, ind["ref"], kind)
            kept = len(fs.frames)
            for k in range(2, min(kept, 4) + 1):
                number = len(model.frames) - k
                if number in births:
                    mon.ok(fs.frames[-k][ind["ref"]] is births[number], "found", "the value of an older frame changed %s", ctx)
                    if number not in (now,) and not model.frames[number].gap:
                        self.state(ind, model.frames[number], births[number], ctx)
        mon.nontrivial = len(self.starts) >= 3

    def state(self, ind, w, value, ctx):
        """The attributes kept by the base class."""
        if ind["flavour"] == "free":
            return
        ticks = w.all if w.gap or not ind["moo"] else w.open_ticks
        if not ticks:
            return
        values = [t.value for t in ticks]
        mon = self.mon
        mon.ok(value.first_tick is ticks[0] and value.last_tick is ticks[-1], "state", "first or last tick of the value %s", ctx)
        mon.ok(value.high_tick is ticks[values.index(max(values))], "state", "highest tick of the value %s", ctx)
        mon.ok(value.low_tick is ticks[values.index(min(values))], "state", "lowest tick of the value %s", ctx)
        mon.ok(value.closed is value.frame.closed and value.nb_ticks == value.frame.nb_ticks, "state", "closed or count %s", ctx)


def run(spec, mon):
    listener = Listener(spec, mon)
    bare = dict(spec, epics=[dict(e, frame_sets=[dict(f, indicators=[]) for f in e["frame_sets"]]) for e in spec["epics"]])
    world = World(bare, listener)
    world.spec = spec
    listener.setup(world)
    world.run()
