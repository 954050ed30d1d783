"""C05: quantities are conserved: opened = still open + closed, never over-closed."""
from estmon import direct, trading
from estmon.world import World

PROP = "C05"
TEMPLATES = [("mixed", 450, 7000), ("busy", 120, 2000), ("closing", 150, 2500), ("long", 8, 120), ("direct", 150, 2500),
             ("crowd", 15, 250)]
RULE = ("seeded trading sessions with partial, excessive, repeated and zero closes, through strategies and epics; "
        "non-trivial: an excessive close and a close of an already closed trade were judged; distinct: hash of the "
        "quantities observed")
REQUIRED = ("judged:balance", "judged:amount", "over_closes", "judged:close_all", "judged:open_list")
SHRINK = ("feed", "direct")
ASSUMPTIONS = ["quantities are not negative integers"]


def gen(template, rng):
    if template == "direct":
        return direct.direct_spec(rng, rng.choice([10, 25, 50]), any_price=True)
    if template == "crowd":
        return trading.crowd_spec(rng, rng.choice([60, 90, 120]))
    kw = {"mixed": {}, "busy": {"density": 0.85, "always": 1}, "long": {},
          "closing": {"ops": {"open": 4, "close": 8, "close_all": 1, "close_again": 2}, "density": 0.8}}[template]
    return trading.trading_spec(rng, 300 if template == "long" else rng.choice([8, 25, 50]), idle=0.3, late=0.12, **kw)


class Ledger(trading.Ledger):
    flags = 0

    def before_action(self, world, s, e, action):
        self.open_before = [r.opened for r in self.recs]
        return super().before_action(world, s, e, action)

    def opened(self, world, rec, trade, closes, action):
        mon = self.mon
        for n, c in closes:
            mon.ok(0 < c.quantity <= self.open_before[n], "amount", "netting closed %s of the %s open of trade %s",
                   c.quantity, self.open_before[n], n)
        mon.ok(trade.closed_quantities == 0 and trade.opened_quantities == trade.open_quantity, "amount",
               "a new trade is already closed")

    def closed(self, world, s, e, action, result, closes):
        mon = self.mon
        if action[0] in ("close", "close_again"):
            n, close = result
            had = self.open_before[n]
            asked = action[2]
            want = had if asked is None else min(asked, had)
            if asked is not None and asked > had:
                mon.ev("over_closes")
                self.flags |= 1
            if had == 0:
                mon.ev("closes_of_closed")
                self.flags |= 2
            mon.ok(close.quantity == want, "amount", "closing %s of %s open closed %s", asked, had, close.quantity)
            mon.ok(close.trade is world.trades[n], "amount", "the close belongs to another trade")
            mon.ok(sum(c.quantity for k, c in closes if k == n) == want and all(k == n for k, c in closes if c.quantity),
                   "amount", "closing %s of trade %s recorded %s", asked, n, [(k, c.quantity) for k, c in closes])
        if action[0] == "close_all":
            mon.ev("close_all")
            asked = (action[1] if len(action) > 1 else {}).get("quantity", 10 ** 9)
            for r, had in zip(self.recs, self.open_before):
                got = sum(c.quantity for k, c in closes if k == r.n)
                want = min(asked, had) if r.s == s else 0
                mon.ok(got == want, "close_all", "closing all of strategy %s closed %s of the %s open of trade %s of "
                       "strategy %s", s, got, had, r.n, r.s)
        self.balance(world)

    def settled(self, world, i, e):
        self.balance(world)
        self.mon.nontrivial = self.flags == 3

    def direct(self, books):
        self.balance(books)
        for r in self.recs:
            asked = self.spec["direct"]
            self.mon.nontrivial |= len(r.closes) > 2 and r.opened == 0 and len(asked) > 2

    def balance(self, world):
        mon = self.mon
        for r in self.recs:
            t = world.trades[r.n]
            ctx = ("trade %d" % r.n, "asked %d" % r.asked, "closes %s" % [c.quantity for c in t.closes])
            mon.ok(t.closed_quantities == sum(c.quantity for c in t.closes), "balance", "closed quantity %s %s",
                   t.closed_quantities, ctx)
            mon.ok(t.opened_quantities + t.closed_quantities == t.open_quantity == r.q, "balance",
                   "%s open + %s closed, %s traded instead of %s %s", t.opened_quantities, t.closed_quantities,
                   t.open_quantity, r.q, ctx)
            mon.ok(t.opened_quantities == r.opened >= 0, "balance", "%s open instead of %s %s", t.opened_quantities,
                   r.opened, ctx)
            mon.ok(t.closed is (r.opened == 0), "balance", "closed flag is %r %s", t.closed, ctx)
            mon.sig(r.n, t.opened_quantities)
        for k, epic in enumerate(world.epics):
            p = self.provider_of(k)
            want = {id(world.trades[r.n]) for r in self.recs if r.provider == p and r.opened > 0}
            got = [id(t) for t in epic.trade_provider.opened_trades]
            mon.ok(len(got) == len(set(got)) and set(got) == want, "open_list",
                   "the provider lists %s open trades instead of %s", len(got), len(want))
        for k, strategy in enumerate(world.strategies):
            want = {id(world.trades[r.n]) for r in self.recs if r.s == k and r.opened > 0}
            got = [id(t) for t in strategy.get_trades(open_only=True)]
            mon.ok(len(got) == len(set(got)) and set(got) == want, "open_list",
                   "the strategy lists %s open trades instead of %s", len(got), len(want))


def run(spec, mon):
    if "direct" in spec:
        ledger = Ledger(spec, mon)
        direct.run_direct(spec, ledger, lambda books, when: ledger.direct(books))
        return
    World(spec, Ledger(spec, mon)).run()
