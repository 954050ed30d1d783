"""C23: at each tick, the open trades of its epic, and only those, are revalued before strategies run."""
from fractions import Fraction

from estmon import snap, trading
from estmon.world import World

PROP = "C23"
TEMPLATES = [("mixed", 400, 6000), ("shared", 250, 4000), ("long", 6, 100), ("crowd", 15, 250), ("mass", 2, 20)]
RULE = ("seeded trading sessions; the valuation of all trades is read in every strategy callback and after every tick; "
        "non-trivial: trades open on 2 epics, or a closed and an open one, were judged on the same tick; distinct: hash of "
        "the valuations observed")
REQUIRED = ("judged:in_callback", "judged:after_tick", "judged:closed_frozen", "judged:other_epic")
SHRINK = ("feed",)
ASSUMPTIONS = []


def gen(template, rng):
    if template == "crowd":
        return trading.crowd_spec(rng, rng.choice([60, 90, 120]), idle=0.2)
    if template == "mass":
        # more than a thousand trades open together
        spec = trading.trading_spec(rng, 8, n_epics=rng.choice([1, 2]), n_strategies=rng.choice([1, 2]), density=0, always=1,
                                    share=rng.choice(["one", "default"]))
        sides = [rng.choice([1, -1]) for _ in spec["epics"]]
        for i in range(3):
            e = spec["feed"][i][0]
            spec["actions"][str(i)] = [[rng.randrange(len(spec["strategies"])), "between", "open", sides[e], rng.randrange(1, 9), None, "strategy", {}]
                                       for _ in range(rng.randrange(340, 500))]
        return spec
    kw = {"mixed": {"density": 0.4}, "shared": {"share": "one", "n_epics": rng.choice([2, 3]), "density": 0.4},
          "long": {"density": 0.3}}[template]
    return trading.trading_spec(rng, 250 if template == "long" else rng.choice([10, 25, 45]), idle=0.3, late=0.12, **kw)


class Ledger(trading.Ledger):
    def __init__(self, spec, mon):
        super().__init__(spec, mon)
        self.frozen = {}

    def on_callback(self, world, s, name, e):
        self.judge(world, e, "in_callback", (name, s))

    def after_tick(self, world, i, e, tick):
        self.judge(world, e, "after_tick", ("tick", i))

    def after_action(self, *a):
        super().after_action(*a)
        self.freeze(a[0])

    def freeze(self, world):
        for r in self.recs:
            t = world.trades[r.n]
            if r.opened == 0 and r.n not in self.frozen:
                self.frozen[r.n] = self.shown(t)
            elif r.opened == 0:
                # closing nothing more may be recorded, results do not move
                self.frozen[r.n]["closes"] = self.shown(t)["closes"]

    @staticmethod
    def shown(t):
        s = snap.trade(t)
        s.pop("close_value")
        return s

    def judge(self, world, e, key, when):
        mon = self.mon
        kinds = set()
        for r in self.recs:
            t = world.trades[r.n]
            if r.q == 0:
                continue
            if r.opened > 0:
                k = key if r.e == e else "other_epic"
                mon.ok(Fraction(t.current_close_value) == r.cur, k, "trade %s (epic %s, %s) is valued at %s instead of %s on a "
                       "tick of epic %s %s", r.n, r.e, "BUY" if r.d == 1 else "SELL", t.current_close_value, float(r.cur), e,
                       when)
                mon.near(t.opened_result, r.floating(), self.tol(r.opened, r.floating()), k, "result of trade %s %s", r.n, when)
                kinds.add(r.e)
            elif r.n in self.frozen:
                d = snap.diff(self.frozen[r.n], self.shown(t))
                mon.ok(d is None, "closed_frozen", "closed trade %s changed: %s %s", r.n, d, when)
                kinds.add("closed")
        if len(kinds) > 1:
            mon.nontrivial = True
        mon.sig([float(r.cur) for r in self.recs if r.opened])


def run(spec, mon):
    World(spec, Ledger(spec, mon)).run()
