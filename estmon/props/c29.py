"""C29: looking at a system never changes it."""
import random

from estmon import chart, fresh, snap, trading
from estmon.timeutil import make_datetime
from estmon.world import World

PROP = "C29"
TEMPLATES = [("mixed", 220, 3500), ("charts", 200, 3000), ("trades", 120, 2000), ("long", 8, 120)]
RULE = ("seeded systems run twice, once untouched and once with random readings of everything the interface shows (prices, "
        "frames, indicator values, chains, lists, aggregates, dictionaries, texts) inside callbacks and between ticks; the "
        "callbacks and final states must be the same; non-trivial: over 50 readings and several frames or trades; distinct: "
        "hash of the final states")
REQUIRED = ("judged:same", "probe:frames", "probe:values", "probe:trades", "probe:strategies", "probe:texts", "probe:providers")
FRESH = True
SHRINK = ("feed",)
ASSUMPTIONS = ["asking whether a strategy is active at an arbitrary date is not a reading"]


def gen(template, rng):
    n = 150 if template == "long" else rng.choice([12, 25, 45])
    spec = trading.trading_spec(rng, n, always=0.4, density={"charts": 0.1, "trades": 0.8, "long": 0.7}.get(template, 0.4),
                                ops={"open": 5, "close": 4, "close_all": 1} if template == "long" else None)
    for e, epic in enumerate(spec["epics"]):
        epic["frame_sets"] = []
        mine = [f for f in spec["feed"] if f[0] == e]
        if template not in ("trades", "long"):
            for f in chart.pick_frames(rng, rng.choice([1, 2]), tick_sets=0.3, maxes=(1, 2, 3, 4, 6, None)):
                keep = f["max"] or 100
                pool = [{"kind": "candle"}, {"kind": "ha"}, {"kind": "ha"}, {"kind": "pivot"}, {"kind": "olhc"},
                        {"kind": "sma", "n": 2}, {"kind": "sma", "n": 4}]
                if f["q"] * 2 <= keep:
                    pool.append({"kind": "rsi", "n": 2})
                f["indicators"] = [dict(k, ref=f"i{j}", moo=rng.random() < 0.4)
                                   for j, k in enumerate(rng.sample(pool, rng.randrange(2, 6)))]
                if chart.count_frames(f, epic["tz"], mine, 80) == len(mine):
                    epic["frame_sets"].append(f)
    if rng.random() < 0.3:
        trading.settle_markets(rng, spec)
    spec["cut"] = rng.randrange(1, n + 1)
    spec["probe_seed"] = rng.randrange(1 << 30)
    spec["rate"] = 0.1 if template == "long" else rng.choice([0.1, 0.4, 1.0])
    return spec


NUMBERS = ("open", "high", "low", "last", "close", "height", "body", "head", "tail", "color", "value", "averages") + \
    ("pivot",) + snap.PIVOT_LEVELS + ("previous", "next", "nb_ticks", "closed", "epic", "first_tick", "last_tick")


class Probe:
    """Reads anything, in any order."""

    def __init__(self, spec, mon):
        self.rng = random.Random(spec["probe_seed"])
        self.mon, self.spec = mon, spec
        self.count = 0
        self.calls = []

    def on_callback(self, world, s, name, e):
        self.calls.append((s, name, e))
        self.probe(world)

    def settled(self, world, i, e):
        self.probe(world)

    def probe(self, world):
        rng = self.rng
        if rng.random() > self.spec["rate"]:
            return
        for _ in range(rng.randrange(1, 6)):
            getattr(self, rng.choice(["frames", "values", "values", "trades", "strategies", "texts", "providers"]))(world)
            self.count += 1

    def frames(self, world):
        self.mon.ev("probe:frames")
        for i, row in enumerate(world.frame_sets):
            for fs in row:
                for offset in (0, 1, 2, self.rng.randrange(0, 150)):
                    f = world.epics[i].get_frame(fs.ref, offset)
                    if f is not None:
                        (f.closed, f.previous_frame, f.next_frame, f["unknown"], f.high_tick.value)
                (fs.current, fs[0], fs[-1], fs[500], fs.epic_market_open)

    def values(self, world):
        self.mon.ev("probe:values")
        rng = self.rng
        for i, row in enumerate(world.frame_sets):
            for fs in row:
                for ref in list(fs.indicators):
                    v = world.epics[i].get_indicator_value(fs.ref, ref, rng.choice([0, 0, 1, 2, rng.randrange(30)]))
                    k = 0
                    while v is not None and k < 4:
                        names = [n for n in NUMBERS if hasattr(type(v), n)]
                        for n in rng.sample(names, min(len(names), rng.randrange(1, 8))):
                            getattr(v, n)
                        if hasattr(v, "get_value"):
                            for p in rng.sample(range(1, 9), 3):
                                v.get_value(p)
                        v = v.previous
                        k += 1

    def trades(self, world):
        self.mon.ev("probe:trades")
        for t in world.trades:
            (t.result, t.result_avg, t.opened_result, t.closed_result, t.closed_result_avg, t.opened_result_avg, t.closed,
             t.closed_quantities, t.opened_quantities, t.asdict(), t.datetime_utc, [c.result for c in t.closes])

    def strategies(self, world):
        self.mon.ev("probe:strategies")
        for s in world.strategies:
            list(s.get_trades())
            next(s.get_trades(open_only=True), None)
            list(s.get_trades(epics=[world.epics[0]], only_after=make_datetime(1_500_000_000_000_000, "arrow:UTC")))
            (s.result(), s.profit_factor(), s.result([]), s.profit_factor(s.get_trades(open_only=True)))

    def texts(self, world):
        self.mon.ev("probe:texts")
        for e in world.epics:
            (str(e), repr(e), str(e.last_tick), e.last_tick.asdict(), e.last_tick.asdict(True), e.last_tick.datetime_utc,
             e.is_market_open())
        for t in world.trades:
            (str(t), repr(t))

    def providers(self, world):
        self.mon.ev("probe:providers")
        for e in world.epics:
            (e.trade_provider.is_alive, e.trade_provider.opened_trades)
        p = world.L.BaseTickProvider(world.epics)
        (p.get_epic_by_ref("E0"), p.get_epic_by_ref("nothing"))


class Calls:
    def __init__(self):
        self.calls = []

    def on_callback(self, world, s, name, e):
        self.calls.append((s, name, e))


def shown(world):
    return snap.world(world)


def untouched(spec, n):
    """The callbacks and what is shown after n ticks of a system which was not read before."""
    calls = Calls()
    plain = World(spec, calls)
    for i in range(n):
        plain.feed(i)
    plain.join()
    return calls.calls, shown(plain)


def run(spec, mon):
    cut = min(spec["cut"], len(spec["feed"]))
    probe = Probe(spec, mon)
    probed = World(spec, probe)
    at_cut = None
    for i in range(len(spec["feed"])):
        probed.feed(i)
        if i + 1 == cut:
            at_cut = (list(probe.calls), shown(probed))
    for n, want in ((cut, at_cut), (len(spec["feed"]), (probe.calls, shown(probed)))):
        if want is None:
            continue
        calls, plain = fresh.call(untouched, spec, n)
        mon.ok(calls == want[0], "same", "callbacks change when the system is read")
        d = snap.diff(plain, want[1])
        mon.ok(d is None, "same", "after %s ticks, untouched against read: %s", n, d)
    probed.join()
    mon.sig(at_cut)
    mon.nontrivial = probe.count > 50 and (len(probed.trades) > 1 or any(len(f.frames) > 2 for r in probed.frame_sets for f in r))
