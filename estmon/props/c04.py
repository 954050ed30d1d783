"""C04: results of trades are the exact sum over closed and open quantities."""
from estmon import direct, trading
from estmon.indic import cents
from estmon.world import World

PROP = "C04"
TEMPLATES = [("mixed", 400, 6000), ("zero", 120, 1800), ("busy", 80, 1200), ("forex", 60, 900), ("long", 8, 120), ("direct", 150, 2500),
             ("crowd", 15, 250)]
RULE = ("seeded trading sessions (1-3 epics, 1-3 strategies, shared or separate providers, partial closes, over-closes, "
        "netting) judged against an exact rational ledger after every tick and action; non-trivial: a trade with at least "
        "2 closes at different prices and quantity left was judged; distinct: hash of the results observed")
REQUIRED = ("judged:total", "judged:floating", "judged:realised", "judged:close", "closes", "nettings")
SHRINK = ("feed", "direct")
ASSUMPTIONS = ["quantities are positive integers",
               "per unit results are rounded to the cent (either neighbour accepted when a price is not in cents)"]


def gen(template, rng):
    if template == "direct":
        return direct.direct_spec(rng, rng.choice([10, 25, 50]), any_price=True)
    if template == "crowd":
        return trading.crowd_spec(rng, rng.choice([60, 90, 120]))
    kw = {"mixed": {}, "zero": {"price": "zero"}, "busy": {"density": 0.85, "n_epics": 1, "always": 1},
          "forex": {"price": "forex"}, "long": {"density": 0.5}}[template]
    return trading.trading_spec(rng, 400 if template == "long" else rng.choice([8, 25, 50]), idle=0.3, late=0.12, **kw)


class Ledger(trading.Ledger):
    def after_action(self, *a):
        super().after_action(*a)
        self.judge(a[0], "action", recent=True)

    def settled(self, world, i, e):
        self.judge(world, "tick %d" % i, recent=len(self.recs) > 40 and i % 10 != 0)

    def judge(self, world, when, recent=False):
        mon = self.mon
        for r in self.recs[-12:] if recent else self.recs:
            t = world.trades[r.n]
            q = max(r.q, 1)
            ctx = (when, "trade %d" % r.n, "BUY" if r.d == 1 else "SELL", "quantity %d" % r.q, "open at %s" % float(r.price),
                   "closes %s" % [(c[0], float(c[1])) for c in r.closes], "now at %s" % float(r.cur))
            total, floating, realised = r.total(), r.floating(), r.realised()
            mon.near(t.result, total, self.tol(q, total), "total", "result %s", ctx)
            mon.near(t.opened_result, floating, self.tol(q, floating), "floating", "result of the open quantity %s", ctx)
            mon.near(t.closed_result, realised, self.tol(q, realised), "realised", "result of the closed quantity %s", ctx)
            mon.near(t.opened_result_avg, r.unit(r.cur) if r.opened else 0, self.unit_tol, "unit",
                     "result per open unit %s", ctx)
            done = r.q - r.opened
            mon.near(t.closed_result_avg, realised / done if done else 0, self.unit_tol + trading.CENT, "unit",
                     "result per closed unit %s", ctx)
            mon.near(t.result_avg, total / r.q if r.q else 0, self.unit_tol + trading.CENT, "unit", "result per unit %s", ctx)
            mon.ok(cents(t.opened_result_avg) and cents(t.result), "unit", "not a number of cents: %r %s", t.result, ctx)
            for c in r.closes:
                if c[0]:  # the price of a close of nothing has no meaning
                    mon.near(c[3].result_avg, r.unit(c[1]), self.unit_tol, "close", "result per unit of a close %s", ctx)
                mon.near(c[3].result, c[0] * r.unit(c[1]), self.tol(c[0]), "close", "result of a close %s", ctx)
            mon.sig(r.n, float(total))
            if len({c[1] for c in r.closes if c[0]}) >= 2 and r.opened:
                mon.nontrivial = True


def run(spec, mon):
    if "direct" in spec:
        ledger = Ledger(spec, mon)
        direct.run_direct(spec, ledger, ledger.judge)
        return
    World(spec, Ledger(spec, mon)).run()
