"""C33: what is registered while ticks are received works from then on, and disturbs nothing."""
from estmon import chart, fresh, gen as g, snap
from estmon.props import c20
from estmon.world import World, make_frame_set, make_indicator

PROP = "C33"
TEMPLATES = [("frames", 130, 2500), ("strategies", 150, 3000), ("all", 120, 2500), ("indicators", 200, 4000)]
RULE = ("seeded feeds during which frame sets, strategies and indicators are registered, between ticks or inside callbacks; "
        "late frame sets are compared with those of an epic whose feed begins there, late strategies with ones which always "
        "were there, late indicators with their definitions over the ticks which follow, and what was there before with a "
        "system where nothing is registered later; non-trivial: something registered late was compared on at least 3 ticks; "
        "distinct: hash of what was compared")
REQUIRED = ("judged:frame_set", "judged:strategy", "judged:undisturbed", "judged:present", "judged:open", "judged:pivot",
            "judged:average", "judged:value", "late_frame_sets", "late_strategies", "in_callback")
FRESH = True
SHRINK = ("feed",)
ASSUMPTIONS = ["values of late indicators chained to a frame which was dropped before they were created are not judged",
               "references registered during the feed are new"]

INDS = [{"kind": "candle"}, {"kind": "ha"}, {"kind": "pivot"}, {"kind": "sma", "n": 3}, {"kind": "rsi", "n": 1}]
WHEN = ("between", "between", "tick", "tick", "open", "close", "tick_open")


def gen(template, rng):
    if template == "indicators":
        spec = c20.gen("mixed", rng)
        for f in spec["epics"][0]["frame_sets"]:
            f["indicators"] = [i for i in f["indicators"] if i["moo"]]
            f["since"] = rng.randrange(len(spec["feed"])) if spec["feed"] else 0
        spec["late"] = "indicators"
        return spec
    spec = chart.chart_spec(rng, rng.choice([12, 30, 50]), nsets=rng.choice([2, 3]), cap=80, maxes=(1, 2, 3, 5, None),
                            always=0.3, tick_sets=0.35)
    n = len(spec["feed"])
    sets = spec["epics"][0]["frame_sets"]
    for f in sets:
        f["indicators"] = [dict(k, ref=f"i{j}", moo=rng.random() < 0.3) for j, k in enumerate(rng.sample(INDS, 2))
                           if k["kind"] != "rsi" or f["q"] <= (f["max"] or 100)]
        if template != "strategies" and rng.random() < 0.7:
            f["since"], f["when"] = rng.randrange(max(1, n - 3)), rng.choice(WHEN)
    if rng.random() < 0.4:
        # a later feed of a second epic, in the same program
        spec["epics"].append(dict(g.market(rng, always=0.3), frame_sets=[]))
        for f in spec["feed"]:
            f[0] = rng.choice([0, 0, 1])
    spec["strategies"] = [{"epics": [0]}]
    for _ in range(rng.choice([1, 2, 3])):
        s = {"epics": [], "late": []}
        for e in range(len(spec["epics"])):
            if template == "frames" or rng.random() < 0.2:
                s["epics"].append(e)
            else:
                s["late"].append([e, rng.randrange(max(1, n - 2)), rng.choice(WHEN)])
        spec["strategies"].append(s)
    spec["actions"] = {}
    return spec


class Log:
    """Runs a system, performing the registrations asked while it receives ticks."""

    def __init__(self, spec, late):
        self.spec = spec
        self.calls = []
        plain = dict(spec)
        plain["epics"] = [dict(e, frame_sets=[f for f in e["frame_sets"] if late is None or "since" not in f])
                          for e in spec["epics"]]
        plain["strategies"] = [{"epics": s["epics"] + ([x[0] for x in s.get("late", ())] if late is None else [])}
                               for s in spec["strategies"]]
        self.world = World(plain, self)
        self.todo = []  # (index, when, epic, what)
        self.sets = {}  # number of the late frame set -> frame set
        self.from_tick = {}
        if late:
            for k, f in enumerate(spec["epics"][0]["frame_sets"]):
                if "since" in f:
                    self.todo.append((f["since"], f["when"], 0, ("set", k)))
            for k, s in enumerate(spec["strategies"]):
                for e, since, when in s.get("late", ()):
                    self.todo.append((since, when, e, ("strategy", k)))
        self.in_callback = 0

    def on_callback(self, world, s, name, e):
        self.calls.append((world.index, s, name, e))
        if s == 0:
            self.register(world.index, name, e)

    def register(self, i, when, e):
        """Registrations due at this place; those whose callback did not happen are made between ticks."""
        for item in list(self.todo):
            since, wanted, e2, what = item
            if since > i or (when != "between" and when != wanted):
                continue
            self.todo.remove(item)
            if when != "between":
                self.in_callback += 1
            epic = self.world.epics[e2]
            if what[0] == "set":
                f = self.spec["epics"][0]["frame_sets"][what[1]]
                fs = make_frame_set(self.world.L, f)
                for ind in f["indicators"]:
                    fs.add_indicator(make_indicator(self.world.L, ind))
                epic.add_frame_set(fs)
                self.sets[what[1]] = fs
            else:
                epic.add_strategy(self.world.strategies[what[1]])
            self.from_tick[what + (e2,)] = i + 1

    def feed(self, i):
        self.world.feed(i)
        self.register(i, "between", None)

    def early(self):
        """What was there before the feed shows."""
        w = self.world
        out = {f"epic{i}": snap.epic(x) for i, x in enumerate(w.epics)}
        for f, fs in zip(w.spec["epics"][0]["frame_sets"], w.frame_sets[0]):
            out[f["ref"]] = snap.frame_set(fs, f)
        return out


def without(spec):
    """A system where nothing is registered late: what it shows after each tick, its calls."""
    log = Log(spec, False)
    out = []
    for i in range(len(spec["feed"])):
        log.feed(i)
        out.append(log.early())
    return out, log.calls


def always(spec):
    """Calls in a system where all the strategies were there before the feed."""
    log = Log(spec, None)
    for i in range(len(spec["feed"])):
        log.feed(i)
    return log.calls


def begins_there(spec, k, start):
    """What a frame set shows when the feed of its epic begins at that tick."""
    f = spec["epics"][0]["frame_sets"][k]
    feed = [x for x in spec["feed"][start:]]
    world = World({"epics": [dict(e, frame_sets=[f] if n == 0 else []) for n, e in enumerate(spec["epics"])], "feed": feed})
    out = {}
    for i in range(len(feed)):
        world.feed(i)
        out[start + i] = snap.frame_set(world.frame_sets[0][0], f)
    return out


def run(spec, mon):
    if spec.get("late") == "indicators":
        return run_indicators(spec, mon)
    plain, calls = fresh.call(without, spec)
    everyone = fresh.call(always, spec)
    log = Log(spec, True)
    refs = {}
    seen = 0
    early = [(k, e) for k, s in enumerate(spec["strategies"]) for e in s["epics"]]
    for i in range(len(spec["feed"])):
        log.feed(i)
        d = snap.diff(plain[i], log.early())
        mon.ok(d is None, "undisturbed", "after tick %s: %s", i, d)
        got = [c for c in log.calls if c[0] == i and (c[1], c[3]) in early]
        mon.ok(got == [c for c in calls if c[0] == i], "undisturbed", "calls at tick %s: %s instead of %s", i, got,
               [c for c in calls if c[0] == i])
        for k, fs in log.sets.items():
            start = log.from_tick["set", k, 0]
            if start > i:
                continue
            if k not in refs:
                refs[k] = fresh.call(begins_there, spec, k, start)
                mon.ev("late_frame_sets")
            d = snap.diff(refs[k][i], snap.frame_set(fs, spec["epics"][0]["frame_sets"][k]))
            f = spec["epics"][0]["frame_sets"][k]
            mon.ok(d is None, "frame_set", "frame set %s %s registered before tick %s shows after tick %s: %s", f["unit"], f["q"],
                   start, i, d)
            mon.sig(k, len(fs.frames))
            seen += 1
        for (what, k, e), start in log.from_tick.items():
            if what != "strategy":
                continue
            if start == i:
                mon.ev("late_strategies")
            got = [c for c in log.calls if c[0] == i and c[1] == k and c[3] == e]
            if start <= i:
                want = [c for c in everyone if c[0] == i and c[1] == k and c[3] == e]
                mon.ok(got == want, "strategy", "strategy %s registered on epic %s before tick %s is called with %s instead of "
                       "%s", k, e, start, got, want)
                seen += bool(want)
                mon.sig(k, got)
    mon.ev("in_callback", log.in_callback)
    mon.nontrivial = seen >= 3


class LateIndicators(c20.Listener):
    """The indicators of a frame set are registered after a given tick, so they know the next ones only."""

    def before_tick(self, world, i, e, tick):
        us = world.spec["feed"][i][1]
        self.created = []
        for f, m in zip(self.fspecs, self.models[e]):
            self.created.append(m.on_tick(us, tick, i > f["since"]))

    def rows(self, world, e):
        return list(zip(world.frame_sets[e], self.models[e], self.fspecs))

    def active(self, fspec):
        return self.i > fspec["since"]

    def after_tick(self, world, i, e, tick):
        self.i = i
        super().after_tick(world, i, e, tick)
        for f, fs in zip(self.fspecs, world.frame_sets[e]):
            if f["since"] == i:
                for ind in f["indicators"]:
                    fs.add_indicator(make_indicator(world.L, dict(ind, moo=False)))
        self.mon.nontrivial = self.mon.events.get("judged:present", 0) > 0


def run_indicators(spec, mon):
    fspecs = spec["epics"][0]["frame_sets"]
    bare = dict(spec, epics=[dict(spec["epics"][0], frame_sets=[dict(f, indicators=[]) for f in fspecs])])
    listener = LateIndicators(spec, mon)
    listener.fspecs = fspecs
    World(bare, listener).run()
