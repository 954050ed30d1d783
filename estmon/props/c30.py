"""C30: orders are executed at the right side of the current quote of their epic, at its instant."""
from fractions import Fraction

from estmon import trading
from estmon.timeutil import instant
from estmon.world import SHARED, World

PROP = "C30"
TEMPLATES = [("mixed", 450, 7000), ("zero", 120, 1800), ("shared", 120, 1800), ("wide", 120, 1800), ("long", 8, 120),
             ("crowd", 15, 250)]
RULE = ("seeded trading sessions with orders given inside all callbacks and between ticks; non-trivial: an opening and a "
        "closing in both directions with bid != ask were judged; distinct: hash of the executions observed")
REQUIRED = ("judged:open_price", "judged:close_price", "judged:open_time", "judged:close_time", "judged:valuation", "judged:meta")
SHRINK = ("feed",)
ASSUMPTIONS = ["the price of a close of quantity 0 is not judged"]


def gen(template, rng):
    if template == "crowd":
        return trading.crowd_spec(rng, rng.choice([60, 90, 120]))
    kw = {"mixed": {}, "zero": {"price": "zero"}, "shared": {"share": "one", "n_epics": 3, "other_epic": 0.4},
          "wide": {"price": "jump"}, "long": {}}[template]
    return trading.trading_spec(rng, 300 if template == "long" else rng.choice([8, 25, 50]), idle=0.3, late=0.12, **kw)


class Ledger(trading.Ledger):
    flags = frozenset()

    def opened(self, world, rec, trade, closes, action):
        mon = self.mon
        us, bid, ask = self.last[rec.e]
        ctx = ("BUY" if rec.d == 1 else "SELL", "bid %s ask %s" % (bid, ask))
        mon.ok(trade.epic is world.epics[rec.e] and trade.direction.value == rec.d, "open_price", "epic or direction %s", ctx)
        mon.ok(trade.strategy is (None if rec.s is None else world.strategies[rec.s]), "open_price", "strategy of the trade")
        mon.ok(trade.open_value == (ask if rec.d == 1 else bid), "open_price", "opened at %s %s", trade.open_value, ctx)
        mon.ok(trade.current_close_value == (bid if rec.d == 1 else ask), "valuation", "valued at %s when opened %s",
               trade.current_close_value, ctx)
        mon.ok(instant(trade.datetime) == us, "open_time", "opened at %s, the last tick is at %s", instant(trade.datetime), us)
        extra = action[5]
        if "ref" in extra:
            mon.ok(trade.ref == extra["ref"], "meta", "reference %s instead of %s", trade.ref, extra["ref"])
        mon.ok(trade.meta == extra.get("meta", {}), "meta", "meta data %s ordered with %s", trade.meta, extra)
        trade.meta["annotated"] = rec.n  # as providers do
        rec.meta = dict(trade.meta)
        self.executed(closes, world)
        self.flag(rec.d, "open", bid, ask)
        mon.sig(rec.d, trade.open_value)

    def closed(self, world, s, e, action, result, closes):
        ordered = action[1] if action[0] == "close_all" and len(action) > 1 else action[4] if len(action) > 4 else {}
        self.executed(closes, world, ordered)
        if action[0] != "close_all":
            n, c = result
            self.mon.ok(c is closes[-1][1] and n == closes[-1][0], "meta", "the close returned is not the one of the trade")
            if "ref" in ordered:
                self.mon.ok(c.ref == ordered["ref"], "meta", "reference %s instead of %s", c.ref, ordered["ref"])

    def executed(self, closes, world, ordered={}):
        mon = self.mon
        for n, c in closes:
            r = self.recs[n]
            us, bid, ask = self.last[r.e]
            want = ordered.get("meta", {})
            mon.ok(c.meta == want, "meta", "meta data %s of a close ordered with %s", c.meta, want)
            c.meta["annotated"] = (n, len(r.closes))
            r.close_meta = getattr(r, "close_meta", []) + [(c, dict(c.meta))]
            if not c.quantity:
                continue
            ctx = ("trade %d" % n, "BUY" if r.d == 1 else "SELL", "bid %s ask %s" % (bid, ask))
            mon.ok(c.close_value == (bid if r.d == 1 else ask), "close_price", "closed at %s %s", c.close_value, ctx)
            mon.ok(instant(c.datetime) == us, "close_time", "closed at %s, the last tick is at %s", instant(c.datetime), us)
            self.flag(r.d, "close", bid, ask)
            mon.sig(n, c.close_value)

    def flag(self, d, what, bid, ask):
        if bid != ask:
            self.flags = self.flags | {(d, what)}
            self.mon.nontrivial = len(self.flags) == 4

    def settled(self, world, i, e):
        self.mon.ok(world.user_meta == SHARED, "meta", "the meta data of the program became %s", world.user_meta)
        # what was executed stays as it was executed
        for r in self.recs[-20:]:
            t = world.trades[r.n]
            self.mon.ok(Fraction(t.open_value) == r.price and instant(t.datetime) == r.us, "open_price",
                        "the opening of trade %s changed", r.n)
            self.mon.ok(t.meta == r.meta, "meta", "the meta data of trade %s became %s", r.n, t.meta)
            for c, meta in getattr(r, "close_meta", ()):
                self.mon.ok(c.meta == meta, "meta", "the meta data of a close became %s", c.meta)
            for c in r.closes:
                self.mon.ok(not c[0] or Fraction(c[3].close_value) == c[1] and instant(c[3].datetime) == c[2], "close_price",
                            "a close of trade %s changed", r.n)


def run(spec, mon):
    World(spec, Ledger(spec, mon)).run()
