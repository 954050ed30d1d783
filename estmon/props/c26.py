"""C26: independent systems in one program never influence each other, whatever their interleaving."""
import gc
import json

from estmon import chart, fresh, gen as g, snap, threads, trading
from estmon.world import World

PROP = "C26"
TEMPLATES = [("interleaved", 160, 2500), ("threads", 60, 900), ("yields", 40, 600), ("successive", 60, 900)]
RULE = ("2-3 seeded systems using the same references run alone, then in the same program: interleaved tick by tick in one "
        "thread, one after the other is gone, or in concurrent threads with a tiny switch interval and thread switches injected inside the library; "
        "their callbacks and states must be the same; non-trivial: trades and frames of 2 systems were compared; distinct: "
        "hash of the states and of the interleaving observed")
REQUIRED = ("judged:same", "switches", "injected_yields", "concurrent_runs",
            "systems_gone")
FRESH = True
SHRINK = ()
ASSUMPTIONS = ["each system is used by one thread"]


def gen(template, rng):
    worlds = []
    for _ in range(rng.choice([2, 2, 3]) if template != "successive" else 1):
        n = 6 if template == "successive" else rng.choice([8, 20]) if template == "interleaved" else rng.choice([6, 12])
        spec = trading.trading_spec(rng, n, frames=True, density=0.5, always=0.6, n_epics=rng.choice([1, 2]),
                                    step=60_000_000 * rng.choice([1, 30]))
        for e, epic in enumerate(spec["epics"]):
            mine = [f for f in spec["feed"] if f[0] == e]
            keep = []
            for f in epic["frame_sets"]:
                kinds = rng.sample([{"kind": "candle"}, {"kind": "ha"}, {"kind": "pivot"}, {"kind": "sma", "n": 3}], 2)
                f["indicators"] = [dict(k, ref=f"i{j}", moo=rng.random() < 0.3) for j, k in enumerate(kinds)]
                if chart.count_frames(f, epic["tz"], mine, 60) == len(mine):
                    keep.append(f)
            epic["frame_sets"] = keep
        worlds.append(spec)
    if template == "successive":
        worlds = [worlds[0]] * rng.choice([4, 6])
    if template == "successive" or rng.random() < 0.5:
        # the other systems receive the same ticks, in other zones and market hours
        for k in range(1, len(worlds)):
            worlds[k] = json.loads(json.dumps(worlds[0]))
            for e, epic in enumerate(worlds[k]["epics"]):
                if rng.random() < (0.2 if template == "successive" else 0.8):
                    epic["tz"] = rng.choice(g.ZONES)
                if template == "successive":
                    m = g.market(rng, [epic["tz"]], always=0.3)
                    epic.update(open=m["open"], close=m["close"], days=m["days"], holidays=[])
                elif rng.random() < 0.4:
                    epic.update(open="00:00:00", close="23:59:59.999999", days=[0, 1, 2, 3, 4, 5, 6], holidays=[])
                if rng.random() < 0.5:
                    for f in worlds[k]["feed"]:
                        f[2:4] = [f[2] + 1.0, f[3] + 1.25]
                mine = [f for f in worlds[k]["feed"] if f[0] == e]
                epic["frame_sets"] = [f for f in epic["frame_sets"]
                                      if chart.count_frames(f, epic["tz"], mine, 60) == len(mine)]
    for w in worlds:
        # what each system holds is changed in place
        w["tune"] = {str(i): rng.choice(["holiday", "day", "trade", "tick"]) for i in range(len(w["feed"])) if rng.random() < 0.2}
        for epic in w["epics"]:
            epic["defaults"] = True
            if rng.random() < 0.5:
                epic.update(holidays=[], days=[0, 1, 2, 3, 4])
    order = []
    for k, w in enumerate(worlds):
        order += [k] * (len(w["feed"]) + 1)
    rng.shuffle(order)
    return {"worlds": worlds, "order": order, "yield": rng.choice([0.01, 0.05, 0.2]), "late": rng.random() < 0.5}


class Runner:
    def __init__(self, spec):
        self.log = []
        self.calls = []
        self.world = World(spec, self)
        self.next = 0
        self.n = len(spec["feed"])

    def on_callback(self, world, s, name, e):
        self.calls.append((s, name, e))

    def step(self):
        if self.next < self.n:
            self.world.feed(self.next)
            self.tune(self.next)
            self.next += 1
            self.log.append((list(self.calls), snap.world(self.world), self.held()))
            self.calls = []
        elif self.next == self.n:
            self.next += 1
            self.world.join()

    def tune(self, i):
        what = self.world.spec.get("tune", {}).get(str(i))
        epic = self.world.epics[self.world.spec["feed"][i][0]]
        if what == "holiday":
            epic.holidays.append(epic.last_tick.datetime.date())
        elif what == "day":
            day = epic.last_tick.datetime.weekday()
            (epic.trade_days.remove if day in epic.trade_days else epic.trade_days.append)(day)
        elif what == "tick":
            epic.last_tick.meta["tuned"] = i
        elif what == "trade" and self.world.trades:
            self.world.trades[i % len(self.world.trades)].meta["tuned"] = i

    def held(self):
        return {"epic%d" % k: {"holidays": sorted(map(str, e.holidays)), "days": sorted(e.trade_days), "tick": dict(e.last_tick.meta)}
                for k, e in enumerate(self.world.epics)}

    def used(self):
        return bool(self.world.trades) and any(f.frames for row in self.world.frame_sets for f in row)

    def all(self):
        while self.next <= self.n:
            self.step()


class Done:
    """What is left of a system."""

    def __init__(self, runner):
        self.log, was = runner.log, runner.used()
        self.used = lambda: was


def reference(spec):
    r = Runner(spec)
    r.all()
    return r.log


def run(spec, mon):
    alone = [fresh.call(reference, w) for w in spec["worlds"]]
    if spec["template"] == "successive":
        # each system is gone before the next one starts, its place in memory is used again
        runners = []
        for w in spec["worlds"]:
            r = Runner(w)
            r.all()
            runners.append(Done(r))
            del r
            gc.collect()
            mon.ev("systems_gone")
    elif spec["template"] == "interleaved":
        runners = {}
        if not spec["late"]:
            runners = {k: Runner(w) for k, w in enumerate(spec["worlds"])}
        last = None
        for k in spec["order"]:
            if k not in runners:
                runners[k] = Runner(spec["worlds"][k])
            runners[k].step()
            if k != last:
                mon.ev("switches")
            last = k
        runners = [runners[k] for k in range(len(spec["worlds"]))]
        mon.sig(spec["order"])
    else:
        runners = concurrent(spec, mon)
    compared = 0
    for k, (r, want) in enumerate(zip(runners, alone)):
        mon.ok(len(r.log) == len(want), "same", "system %s handled %s ticks instead of %s", k, len(r.log), len(want))
        for i, (a, b) in enumerate(zip(want, r.log)):
            mon.ok(a[0] == b[0], "same", "callbacks of system %s at tick %s: %s alone, %s with others", k, i, a[0], b[0])
            d = snap.diff(a[1], b[1])
            mon.ok(d is None, "same", "state of system %s after tick %s (alone against with others): %s", k, i, d)
            d = snap.diff(a[2], b[2])
            mon.ok(d is None, "same", "settings and meta of system %s after tick %s (alone against with others): %s", k, i, d)
        if r.used():
            compared += 1
        mon.sig(want[-1] if want else None)
    mon.nontrivial = compared >= 2


def concurrent(spec, mon):
    runners = [None] * len(spec["worlds"])

    def program(k):
        def step():
            if runners[k] is None:
                runners[k] = Runner(spec["worlds"][k])
            runners[k].step()
            return runners[k].next <= runners[k].n

        return step

    order, yields = threads.concurrent([program(k) for k in range(len(runners))],
                                       spec["yield"] if spec["template"] == "yields" else None)
    mon.ev("concurrent_runs")
    mon.ev("injected_yields", yields)
    mon.ev("switches", sum(1 for a, b in zip(order, order[1:]) if a != b))
    mon.sig(order)
    return runners
