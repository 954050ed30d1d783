"""C09: what happens on an epic does not depend on the other epics, even with a shared provider and strategy."""

import threading

from estmon import chart, fresh, gen as g, snap, threads, trading
from estmon.world import World

PROP = "C09"
TEMPLATES = [("shared", 200, 4000), ("mixed", 140, 2500), ("charts", 120, 2500), ("clones", 100, 1800), ("zones", 100, 1800),
             ("nested", 100, 1800), ("threads", 80, 1500), ("yields", 30, 600)]
RULE = ("seeded systems of 2-3 epics sharing providers and strategies are run together, then once per epic with nothing "
        "else than its ticks and orders; callbacks, frames, indicators, trades and market state must be the same after every "
        "tick; non-trivial: at least 2 epics had trades open at the same time; distinct: hash of what was compared")
REQUIRED = ("judged:same", "judged:silent", "trades_compared", "frames_compared", "nested", "concurrent_runs", "switches")
FRESH = True
SHRINK = ("feed",)
ASSUMPTIONS = ["orders name trades of the epic receiving the tick", "epics have different references"]


def gen(template, rng):
    n = rng.choice([20, 40, 60])
    share = {"shared": "one", "mixed": None, "charts": "one", "clones": "one", "zones": None, "nested": None,
             "threads": "one", "yields": "one"}[template]
    spec = trading.trading_spec(rng, n, n_epics=rng.choice([2, 2, 3]), n_strategies=rng.choice([1, 1, 2]), share=share, twins=0,
                                always=0.6, density=0, kinds=("backtests", "manual"))
    for s in spec["strategies"]:
        if rng.random() < 0.7:
            s["epics"] = list(range(len(spec["epics"])))
    if template == "clones":
        # the epics differ by their reference only, same frame set and strategy references
        for k, e in enumerate(spec["epics"]):
            spec["epics"][k] = dict(spec["epics"][0])
    if template == "zones":
        # all the epics receive ticks at the same instants, in different zones
        feed = []
        for f in spec["feed"][: n // len(spec["epics"])]:
            for e in range(len(spec["epics"])):
                quote = f[2:4] if rng.random() < 0.5 else [f[2] + 1.0 + e, f[3] + 1.5 + e]
                feed.append([e, f[1]] + quote + [f[4]])
        spec["feed"] = feed
        for epic in spec["epics"]:
            epic["tz"] = rng.choice(g.ZONES)
        same = chart.pick_frames(rng, 2, tick_sets=0.2)
    for e, epic in enumerate(spec["epics"]):
        mine = [f for f in spec["feed"] if f[0] == e]
        epic["frame_sets"] = []
        for f in ([dict(x) for x in same] if template == "zones" else
                  chart.pick_frames(rng, 3 if template == "charts" else 1, tick_sets=0.4)):
            kinds = rng.sample([{"kind": "candle"}, {"kind": "ha"}, {"kind": "pivot"}, {"kind": "sma", "n": 3}], 2)
            f["indicators"] = [dict(k, ref=f"i{j}", moo=rng.random() < 0.4) for j, k in enumerate(kinds)]
            if chart.count_frames(f, epic["tz"], mine, 120) == len(mine):
                epic["frame_sets"].append(f)
    spec["orders"] = {}
    for i in range(len(spec["feed"])):
        while rng.random() < (0.2 if template == "charts" else 0.6):
            s = rng.choice([None] + list(range(len(spec["strategies"]))))
            op = rng.choice(["open", "open", "close"])
            spec["orders"].setdefault(str(i), []).append(
                [s, rng.choice(["tick", "tick_open", "open", "close", "between"]) if s is not None else "between", op,
                 rng.choice([1, -1]), rng.choice([1, 1, 2, 3, 5]), rng.randrange(20), rng.random() < 0.5])
    spec["actions"] = {}
    if template == "nested":
        # sent by a strategy, while it is called for the tick before
        spec["nested"] = {str(i): rng.choice(["tick", "tick", "tick_open"]) for i in range(1, len(spec["feed"]))
                          if rng.random() < 0.5}
    return spec


class Runner:
    """Runs the whole system, or what concerns one of its epics only."""

    def __init__(self, spec, only=None):
        self.spec = spec
        self.only = only
        self.world = World(spec, self)
        self.log = [[] for _ in spec["epics"]]
        self.orders = [[] for _ in spec["epics"]]
        self.here = threading.local()  # where the program of this thread is
        self.here.stack = []
        self.nested = 0

    def on_callback(self, world, s, name, e):
        self.log[e].append((s, name))
        self.place(s, name, e)
        n = self.here.next
        if self.only is None and self.spec.get("nested", {}).get(str(n)) == name and n < len(self.spec["feed"]):
            if self.spec["feed"][n][0] not in [self.spec["feed"][k][0] for k in self.here.stack]:
                self.nested += 1
                self.feed(n)

    def feed(self, i):
        """Sends a tick, and those which strategies send meanwhile."""
        self.here.stack.append(i)
        self.here.i, self.here.next = i, i + 1
        before = self.world.index
        self.world.feed(i)
        e = self.spec["feed"][i][0]
        self.here.i = i
        self.place(None, "between", e)
        self.here.done.append((i, e, self.shown(e)))
        self.here.stack.pop()
        self.world.index = before
        if self.here.stack:
            self.here.i = self.here.stack[-1]

    def place(self, s, when, e):
        for o in self.spec["orders"].get(str(self.here.i), ()):
            if o[0] == s and o[1] == when or when == "between" == o[1]:
                self.order(o, e)

    def order(self, o, e):
        s, _, op, d, q, k, direct = o
        w = self.world
        strategy = None if s is None else w.strategies[s]
        if op == "open":
            if strategy is not None and direct:
                t = strategy.open_trade(w.epics[e], direction=w.L.Direction(d), quantity=q)
            else:
                t = w.epics[e].open_trade(direction=w.L.Direction(d), quantity=q, strategy=strategy)
            self.orders[e].append((s, t))
        else:
            able = [t for n, t in self.orders[e] if n == s and not t.closed]
            if not able:
                return
            t = able[k % len(able)]
            if strategy is not None and direct:
                strategy.close_trade(t, quantity=q)
            else:
                w.epics[e].close_trade(t, quantity=q)

    def run(self):
        """[(feed index, epic, what concerns it)] of each tick sent, with those sent meanwhile"""
        self.here.next = 0
        while self.here.next < len(self.spec["feed"]):
            if self.only is not None and self.spec["feed"][self.here.next][0] != self.only:
                self.here.next += 1
                continue
            self.here.done = []
            self.feed(self.here.next)
            yield self.here.done
        self.world.join()

    def shown(self, e):
        w = self.world
        epic = w.epics[e]
        out = {"market": epic.market_open, "last": snap.tick_key(epic.last_tick), "calls": list(self.log[e])}
        for k, fs in enumerate(w.frame_sets[e]):
            out["frames%d" % k] = snap.frame_set(fs, self.spec["epics"][e]["frame_sets"][k])
        for k, (s, t) in enumerate(self.orders[e]):
            out["trade%d" % k] = dict(snap.trade(t), owner=s)
        for k, s in enumerate(w.strategies):
            trades = list(s.get_trades(epics=[epic]))
            out["strategy%d" % k] = {"n": len(trades), "result": s.result(trades), "pf": s.profit_factor(trades),
                                     "open": len(list(s.get_trades(epics=[epic], open_only=True)))}
        p = epic.trade_provider
        out["listed"] = sum(1 for t in p.opened_trades if t.epic is epic)
        return out


    def program(self, e, out):
        """Steps of a thread which sends the ticks of an epic."""
        mine = iter([i for i, f in enumerate(self.spec["feed"]) if f[0] == e])

        def step():
            if not hasattr(self.here, "stack"):
                self.here.stack = []
            i = next(mine, None)
            if i is None:
                return False
            self.here.done = []
            self.feed(i)
            out[i] = self.here.done[0][2]
            return True

        return step


def alone(spec, e):
    return {i: s for done in Runner(spec, e).run() for i, _, s in done}


def run(spec, mon):
    solo = {e: fresh.call(alone, spec, e) for e in range(len(spec["epics"]))}
    together = Runner(spec)
    if spec["template"] in ("threads", "yields"):
        return concurrently(spec, mon, solo, together)
    previous = [None] * len(spec["epics"])
    for done in together.run():
        for i, e, shown in done:
            d = snap.diff(solo[e][i], shown)
            mon.ok(d is None, "same", "epic %s after tick %s, alone against together: %s", e, i, d)
            mon.ev("trades_compared", len(together.orders[e]))
            mon.ev("frames_compared", sum(len(v) for k, v in shown.items() if k.startswith("frames")))
        # the other epics did not move
        for o in range(len(spec["epics"])):
            if o not in [e for _, e, _ in done] and previous[o] is not None:
                d = snap.diff(previous[o], together.shown(o))
                mon.ok(d is None, "silent", "a tick of epic %s changed epic %s: %s", e, o, d)
        for i, e, shown in done:
            previous[e] = shown
            mon.sig(e, shown["market"], len(together.orders[e]), shown["calls"][-3:])
        if sum(any(not t.closed for _, t in row) for row in together.orders) > 1:
            mon.nontrivial = True
    mon.ev("nested", together.nested)


def concurrently(spec, mon, solo, together):
    """Each epic receives its ticks in its own thread."""
    shown = [{} for _ in spec["epics"]]
    order, yields = threads.concurrent([together.program(e, shown[e]) for e in range(len(spec["epics"]))],
                                       0.02 if spec["template"] == "yields" else None)
    together.world.join()
    for e in range(len(spec["epics"])):
        mon.ok(sorted(shown[e]) == sorted(solo[e]), "same", "epic %s handled %s ticks instead of %s", e, len(shown[e]), len(solo[e]))
        for i in shown[e]:
            d = snap.diff(solo[e][i], shown[e][i])
            mon.ok(d is None, "same", "epic %s after tick %s, alone against in concurrent threads: %s", e, i, d)
    # nothing was lost nor listed twice
    w = together.world
    made = [(s, t) for row in together.orders for s, t in row if t.open_quantity]
    for p in {id(x.trade_provider): x.trade_provider for x in w.epics}.values():
        want = [t for _, t in made if t.epic.trade_provider is p]
        mon.ok(len(p.trades) == len(want) and {id(t) for t in p.trades} == {id(t) for t in want}, "same",
               "a provider lists %s trades instead of %s", len(p.trades), len(want))
    for k, strategy in enumerate(w.strategies):
        want = [t for s, t in made if s == k]
        got = list(strategy.get_trades())
        mon.ok(len(got) == len(want) and {id(t) for t in got} == {id(t) for t in want}, "same",
               "strategy %s lists %s trades instead of %s", k, len(got), len(want))
    mon.ev("concurrent_runs")
    mon.ev("injected_yields", yields)
    switches = sum(1 for a, b in zip(order, order[1:]) if a != b)
    mon.ev("switches", switches)
    mon.sig(order)
    mon.nontrivial = switches > 2 and len(made) > 1
