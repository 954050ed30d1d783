"""C02: an epic accepts its ticks in chronological order only, a refused tick has no effect."""
from estmon import chart, gen as g, snap, trading
from estmon.chart import FrameModel, is_open
from estmon.timeutil import DAY, HOUR, MIN, SEC, at
from estmon.world import World, make_tick

PROP = "C02"
TEMPLATES = [("mixed", 260, 4000), ("dst", 160, 2500), ("close", 120, 1800), ("many", 80, 1200), ("long", 6, 100)]
RULE = ("seeded feeds whose instants go back by 1us to days, in repeated DST hours and across timezones, to epics with "
        "frame sets, strategies and open trades; non-trivial: ticks were refused and accepted, with at least one trade or "
        "frame; distinct: hash of the accept/refuse sequences")
REQUIRED = ("judged:accepted", "judged:refused", "judged:no_effect", "judged:state", "refused_with_trades")
SHRINK = ("feed",)
ASSUMPTIONS = ["instants between 1970 and 2036"]


def gen(template, rng):
    n = 300 if template == "long" else rng.choice([12, 25, 40])
    spec = trading.trading_spec(rng, n, n_epics=rng.choice([2, 3]) if template == "many" else 1, always=0.5, density=0.4,
                                step={"close": SEC, "dst": 10 * MIN}.get(template))
    feed = spec["feed"]
    for e in spec["epics"]:
        e["frame_sets"] = []
    if template == "dst":
        tz = rng.choice([z for z in g.HOSTILE if z != "UTC"])
        t0 = at(rng.choice(g.HOSTILE[tz]), tz)
        for e in spec["epics"]:
            e["tz"] = tz
        shift = t0 - feed[0][1] + rng.randrange(0, 3 * HOUR)
        for item in feed:
            item[1] += shift
    back = {"close": [1, 1, 1000, SEC, SEC - 1], "dst": [1, MIN, 20 * MIN, HOUR - 1, HOUR, HOUR + 1, 2 * HOUR]}.get(
        template, [1, SEC, MIN, HOUR, DAY, 30 * DAY])
    # move some of the ticks into the past of the previous ones
    for i in range(1, len(feed)):
        if rng.random() < 0.3:
            feed[i][1] = max(0, feed[i - 1][1] - rng.choice(back))
        if rng.random() < 0.5:
            feed[i][4] = g.tick_style(rng, spec["epics"][0]["tz"])
    if rng.random() < 0.3:
        # quotes of zero
        for item in feed:
            if rng.random() < 0.5:
                item[2:4] = rng.choice([[0, 0], [0.0, 0.0], [0, 1], [-1, 0]])
    for e, epic in enumerate(spec["epics"]):
        sets = chart.pick_frames(rng, rng.choice([1, 2]), tick_sets=0.4)
        mine = [f for f in feed if f[0] == e]
        kept, last = [], None
        for f in mine:
            if last is None or f[1] >= last:
                kept.append(f)
                last = f[1]
        for f in sets:
            f["indicators"] = [{"kind": k, "ref": k, "moo": False} for k in rng.sample(["candle", "ha", "pivot"], 2)]
            if chart.count_frames(f, epic["tz"], kept, 150) == len(kept):
                epic["frame_sets"].append(f)
        if not epic["frame_sets"]:
            epic["frame_sets"] = [{"unit": "TICK", "q": 3, "ref": "F0", "max": None,
                                   "indicators": [{"kind": "candle", "ref": "candle", "moo": False}]}]
    return spec


class Listener:
    def __init__(self):
        self.calls = []

    def on_callback(self, world, s, name, e):
        self.calls.append((s, name, e))


def run(spec, mon):
    listener = Listener()
    world = World(spec, listener)
    models = [[FrameModel(f, e["tz"]) for f in e["frame_sets"]] for e in spec["epics"]]
    last = [None] * len(spec["epics"])
    seen = set()
    for i, item in enumerate(spec["feed"]):
        e, us = item[0], item[1]
        epic = world.epics[e]
        good = last[e] is None or us >= last[e]
        ctx = ("tick", i, "epic", e, "style", item[4], "from", last[e], "to", us, "(%s)" % (us - (last[e] or us)))
        mon.sig(e, good)
        if good:
            mon.ev("judged:accepted")
            try:
                world.feed(i)
            except world.L.exc.EpicException as x:
                mon.fail("accepted", "a tick which is not anterior is refused %s: %s", ctx, x)
            last[e] = us
            tick = world.current_tick
            mon.ok(epic.last_tick is tick and epic.market_open is is_open(spec["epics"][e], us), "state",
                   "last tick and market %s", ctx)
            for fs, model, f in zip(world.frame_sets[e], models[e], spec["epics"][e]["frame_sets"]):
                model.on_tick(us, tick, False)
                w = model.frames[-1]
                mon.ok(fs.current.last_tick is tick and fs.current.nb_ticks == len(w.ticks)
                       and len(fs.frames) == min(model.max, len(model.frames)), "state", "frames %s", ctx)
            seen.add("accepted")
            continue
        before = snap.world(world)
        calls = len(listener.calls)
        listed = [p.trades[:] for p in {id(x.trade_provider): x.trade_provider for x in world.epics}.values()]
        tick = make_tick(world.L, item)
        world.index = -1
        try:
            epic.on_new_tick(tick)
            refused = False
        except world.L.exc.EstradeException:
            refused = True
        mon.ok(refused, "refused", "a tick anterior to the last one is accepted %s", ctx)
        mon.ok(len(listener.calls) == calls, "no_effect", "strategies are called by a refused tick %s", ctx)
        d = snap.diff(before, snap.world(world))
        mon.ok(d is None, "no_effect", "a refused tick changed %s %s", d, ctx)
        mon.ok(listed == [p.trades[:] for p in {id(x.trade_provider): x.trade_provider for x in world.epics}.values()],
               "no_effect", "trades of the providers %s", ctx)
        seen.add("refused")
        if any(not t.closed for t in world.trades):
            mon.ev("refused_with_trades")
    world.join()
    mon.nontrivial = len(seen) == 2
