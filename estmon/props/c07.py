"""C07: simulated netting conserves the net position of each strategy on each epic."""
from estmon import trading
from estmon.world import World

PROP = "C07"
TEMPLATES = [("mixed", 400, 6000), ("stack", 250, 4000), ("shared", 200, 3000), ("long", 8, 120), ("crowd", 15, 250)]
RULE = ("seeded trading sessions in the simulated provider, with stacks of positions in one direction netted by smaller, "
        "equal and bigger orders, providers and strategies shared by several epics; non-trivial: an order netted at least "
        "2 trades, or one of them partially; distinct: hash of the (order, netting) sequence")
REQUIRED = ("judged:net", "judged:scope", "judged:one_way", "judged:registered", "nettings", "multi_nettings", "full_nettings",
            "partial_nettings")
SHRINK = ("feed",)
ASSUMPTIONS = ["quantities are positive integers", "which of several opposite trades is netted first is not judged"]


def gen(template, rng):
    if template == "crowd":
        return trading.crowd_spec(rng, rng.choice([60, 90, 120]), kinds=("backtests",))
    n = 300 if template == "long" else rng.choice([8, 20, 40])
    kw = {"kinds": ("backtests",)}
    if template == "stack":
        kw.update(ops={"open": 8, "close": 1}, density=0.75, n_epics=rng.choice([1, 2]), n_strategies=1, max_q=6)
    elif template == "shared":
        kw.update(share="one", n_epics=3, n_strategies=rng.choice([1, 2]), other_epic=0.5, density=0.7)
    elif template == "mixed":
        kw.update(share=rng.choice(["one", "each", "default", "mixed"]), ops={"open": 6, "close": 2, "close_all": 0.3})
    spec = trading.trading_spec(rng, n, idle=0.3, late=0.12, **kw)
    if template == "stack":
        # runs of orders in the same direction
        d = 1
        for acts in spec["actions"].values():
            for a in acts:
                if a[2] == "open":
                    if rng.random() < 0.3:
                        d = -d
                    a[3] = d
    return spec


class Ledger(trading.Ledger):
    def before_action(self, world, s, e, action):
        self.open_before = [r.opened for r in self.recs]
        self.listed_before = [id(t) for t in world.epics[e].trade_provider.trades]
        return super().before_action(world, s, e, action)

    def net(self, s, e):
        return sum(r.d * r.opened for r in self.recs if r.s == s and r.e == e)

    def opened(self, world, rec, trade, closes, action):
        mon = self.mon
        e, s = rec.e, rec.s
        ctx = ("BUY" if rec.d == 1 else "SELL", "quantity %d" % rec.asked, "strategy %s epic %s" % (s, e),
               "open before %s" % [(r.n, r.s, r.e, r.d * had) for r, had in zip(self.recs, self.open_before) if had],
               "netted %s" % [(n, c.quantity) for n, c in closes], "left %s" % trade.open_quantity)
        opposite = {r.n: had for r, had in zip(self.recs, self.open_before)
                    if had > 0 and r.d != rec.d and r.s == s and r.e == e and r.provider == rec.provider}
        for n, c in closes:
            mon.ok(n in opposite, "scope", "trade %s was netted %s", n, ctx)
        # other trades, and the direction of those of the same epic and strategy, are untouched
        per_trade = {}
        for n, c in closes:
            per_trade[n] = per_trade.get(n, 0) + c.quantity
        for r, had in zip(self.recs, self.open_before):
            took = per_trade.get(r.n, 0)
            mon.ok(0 <= took <= had and world.trades[r.n].opened_quantities == had - took, "scope",
                   "trade %s has %s open instead of %s %s", r.n, world.trades[r.n].opened_quantities, had - took, ctx)
        available = sum(opposite.values())
        want = min(available, rec.asked)
        mon.ok(sum(per_trade.values()) == want, "net", "netted %s instead of %s %s", sum(per_trade.values()), want, ctx)
        mon.ok(trade.open_quantity == rec.asked - want, "net", "left %s instead of %s %s", trade.open_quantity,
               rec.asked - want, ctx)
        registered = sum(1 for t in world.epics[e].trade_provider.trades if t is trade)
        mon.ok(registered == (1 if rec.asked > want else 0), "registered", "the new trade is registered %s times %s",
               registered, ctx)
        if s is not None:
            mine = sum(1 for t in world.strategies[s].trades if t is trade)
            mon.ok(mine == registered, "registered", "the strategy lists the new trade %s times %s", mine, ctx)
        if len(per_trade) >= 2:
            mon.ev("multi_nettings")
            mon.nontrivial = True
        if want and want == rec.asked:
            mon.ev("full_nettings")
        if any(per_trade.get(n, 0) not in (0, had) for n, had in opposite.items()):
            mon.ev("partial_nettings")
            mon.nontrivial = True
        # after an order, a strategy is on one side of each epic
        sides = {t.direction for t in world.epics[e].trade_provider.opened_trades
                 if any(world.trades[r.n] is t and r.s == s and r.e == e for r in self.recs) or t is trade}
        mon.ok(len(sides) <= 1, "one_way", "both directions are open %s", ctx)
        mon.sig(rec.d, rec.asked, sorted(per_trade.items()))

    def settled(self, world, i, e):
        for k in range(len(world.strategies)):
            for e2 in range(len(world.epics)):
                trades = [(r, world.trades[r.n]) for r in self.recs if r.s == k and r.e == e2]
                got = sum((1 if t.direction.name == "BUY" else -1) * t.opened_quantities for r, t in trades)
                self.mon.ok(got == self.net(k, e2), "net", "net position of strategy %s on epic %s is %s instead of %s", k, e2,
                            got, self.net(k, e2))


def run(spec, mon):
    World(spec, Ledger(spec, mon)).run()
