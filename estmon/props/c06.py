"""C06: the best and worst results of a trade are those it really had."""
from estmon import direct, trading
from estmon.world import World

PROP = "C06"
TEMPLATES = [("mixed", 400, 6000), ("volatile", 160, 2500), ("zero", 80, 1200), ("long", 8, 120), ("direct", 150, 2500), ("any", 150, 2500),
             ("crowd", 15, 250)]
RULE = ("seeded trading sessions; the extremes of the exact result over the opening and every tick of the epic of the "
        "trade while it is open are compared with those shown after every tick and action; non-trivial: a trade whose "
        "best and worst results both differ from its current one was judged; distinct: hash of the extremes observed")
REQUIRED = ("judged:best", "judged:worst", "nettings", "closes")
SHRINK = ("feed", "direct")
ASSUMPTIONS = ["quantities are positive integers",
               "a close made at another price than the current one counts from the next tick on (bounds are not judged before)"]


def gen(template, rng):
    if template == "direct":
        return direct.direct_spec(rng, rng.choice([10, 25, 50]), any_price=False)
    if template == "any":
        return direct.direct_spec(rng, rng.choice([10, 25, 50]))
    if template == "crowd":
        return trading.crowd_spec(rng, rng.choice([60, 90, 120]))
    kw = {"mixed": {}, "volatile": {"price": rng.choice(["jump", "cents"]), "density": 0.3}, "zero": {"price": "zero"},
          "long": {"density": 0.3}}[template]
    return trading.trading_spec(rng, 400 if template == "long" else rng.choice([12, 30, 60]), idle=0.3, late=0.12, **kw)


class Ledger(trading.Ledger):
    def after_action(self, *a):
        super().after_action(*a)
        self.judge(a[0], "action", True)

    def settled(self, world, i, e):
        self.judge(world, "tick %d" % i, len(self.recs) > 40 and i % 10 != 0)

    def judge(self, world, when, recent):
        mon = self.mon
        for r in self.recs[-12:] if recent else self.recs:
            if r.q == 0:
                continue  # entirely netted, never was a position
            t = world.trades[r.n]
            ctx = (when, "trade %d" % r.n, "BUY" if r.d == 1 else "SELL", "quantity %d" % r.q, "open at %s" % float(r.price),
                   "closes %s" % [(c[0], float(c[1])) for c in r.closes], "now at %s" % float(r.cur))
            mon.near(t.max_result, r.hi, self.tol(r.q, r.hi), "best", "best result %s", ctx)
            mon.near(t.min_result, r.lo, self.tol(r.q, r.lo), "worst", "worst result %s", ctx)
            mon.ok(self.spec["template"] == "any" or t.min_result - 1e-6 <= t.result <= t.max_result + 1e-6, "bounds", "result %s is out of [%s, %s] %s", t.result,
                   t.min_result, t.max_result, ctx)
            mon.sig(r.n, float(r.hi), float(r.lo))
            if r.lo < r.total() < r.hi:
                mon.nontrivial = True


def run(spec, mon):
    if "direct" in spec:
        ledger = Ledger(spec, mon)
        direct.run_direct(spec, ledger, lambda books, when: ledger.judge(books, when, False))
        return
    World(spec, Ledger(spec, mon)).run()
