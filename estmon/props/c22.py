"""C22: the aggregates of a strategy agree with its trades."""
import math

from estmon import trading
from estmon.timeutil import DAY, HOUR, instant, make_datetime
from estmon.gen import tick_style
from estmon.world import World

PROP = "C22"
TEMPLATES = [("mixed", 300, 5000), ("wins", 100, 1500), ("zero", 100, 1500), ("small", 120, 2000), ("long", 6, 100),
             ("crowd", 15, 250)]
RULE = ("seeded trading sessions; after each tick the lists, results and profit factors of every strategy are asked with "
        "random epics, dates, subsets, generators and empty lists, and at the end they are read while trades are closed and opened; non-trivial: winning and losing trades in a same list; "
        "distinct: hash of the aggregates observed")
REQUIRED = ("judged:trades", "judged:order", "judged:result", "judged:factor", "judged:only_after", "judged:empty", "judged:walk",
            "no_loss", "small_loss", "big_loss")
SHRINK = ("feed",)
ASSUMPTIONS = ["profit factor: gains when there is no loss, else gains / max(1, losses), rounded to 2 decimals",
               "only_after is asked for strategies whose trades are opened chronologically"]


def gen(template, rng):
    n = {"long": 250, "crowd": rng.choice([50, 80, 110])}.get(template) or rng.choice([10, 25, 50])
    kw = {"mixed": {}, "wins": {"price": "coarse"}, "zero": {"price": "zero"}, "small": {"price": "forex", "max_q": 2},
          "long": {"density": 0.4}, "crowd": {}}[template]
    spec = (trading.crowd_spec if template == "crowd" else trading.trading_spec)(rng, n, mono=True, idle=0.3, **kw)
    tz = spec["epics"][0]["tz"]
    spec["asks"] = []
    for i in range(n):
        spec["asks"].append([rng.random() for _ in range(4)] + [rng.choice([-DAY, -HOUR, -1, 0, 0, 0, 1, HOUR]),
                                                                tick_style(rng, tz)])
    return spec


class Listener:
    def __init__(self, spec, mon):
        self.spec, self.mon = spec, mon
        self.flags = set()

    def settled(self, world, i, e):
        mon = self.mon
        r1, r2, r3, r4, shift, style = self.spec["asks"][i]
        if not style.startswith("arrow"):
            style = "arrow:UTC"
        everything = []
        for s, strategy in enumerate(world.strategies):
            mine = [(k, t) for k, t in enumerate(world.trades)
                    if world.origin[k][0] == s and t.open_quantity > 0]
            everything += [t for _, t in mine]
            self.lists(world, s, strategy, mine, i, r1, r2, r3, shift, style)
            self.aggregates(strategy, [t for _, t in mine], None, i)
            newest = list(strategy.get_trades())
            self.aggregates(strategy, [t for _, t in mine], strategy.get_trades(), i)
            sub = newest[int(r1 * len(newest)):]
            self.aggregates(strategy, sub, sub, i)
            self.aggregates(strategy, sub, iter(sub), i)
            e2 = world.epics[int(r2 * len(world.epics))]
            self.aggregates(strategy, [t for _, t in mine if t.epic is e2], strategy.get_trades(epics=[e2]), i)
            self.aggregates(strategy, [t for _, t in mine if t.opened_quantities], strategy.get_trades(open_only=True), i)
            self.aggregates(strategy, [], [], i)
            self.aggregates(strategy, [], (t for t in ()), i)
            mon.ok(strategy.result([]) == 0 and strategy.profit_factor([]) == 0, "empty", "aggregates of no trade: %s %s",
                   strategy.result([]), strategy.profit_factor([]))
        # trades of any strategy can be aggregated by any other
        for strategy in world.strategies[:1]:
            self.aggregates(strategy, everything, list(everything), i)
        if i == len(self.spec["feed"]) - 1:
            for s, strategy in enumerate(world.strategies):
                self.walk(world, strategy, [t for k, t in enumerate(world.trades)
                                            if world.origin[k][0] == s and t.open_quantity > 0], r1, r2)

    def walk(self, world, strategy, mine, r1, r2):
        """The trades are closed, and some are opened, while their list is read."""
        mon = self.mon
        open_only = r1 < 0.7
        want = [t for t in mine if not open_only or not t.closed][::-1]
        got, new = [], []
        for t in strategy.get_trades(open_only=open_only):
            if any(t is x for x in new):
                continue  # whether what is opened meanwhile is listed is not said
            got.append(t)
            if len(got) > len(want):
                break
            if not t.closed:
                strategy.close_trade(t)
            if r2 < 0.6 and len(new) < 3 and not any(
                    x.epic is t.epic and x.direction != t.direction and not x.closed for x in mine + new):
                # nothing is netted
                new.append(strategy.open_trade(t.epic, direction=t.direction, quantity=1))
        self.same(got, want, "walk", ("closing each trade listed", "open only", open_only, "%s opened meanwhile" % len(new)))
        mon.ok(all(t.closed for t in mine), "walk", "trades listed and closed are still open")
        for t in new:
            t.epic.close_trade(t)
        got = list(strategy.get_trades())
        self.same(got, (mine + new)[::-1], "walk", ("after the list was read",))

    def lists(self, world, s, strategy, mine, i, r1, r2, r3, shift, style):
        mon = self.mon
        n = len(world.epics)
        for epics in (None, [int(r1 * n)], sorted({int(r1 * n), int(r2 * n)}), list(range(n)), []):
            for open_only in (False, True):
                want = [t for k, t in mine if (epics is None or world.origin[k][1] in epics)
                        and (not open_only or t.opened_quantities > 0)]
                kw = {} if epics is None else {"epics": [world.epics[x] for x in epics]}
                if open_only:
                    kw["open_only"] = True
                got = list(strategy.get_trades(**kw))
                self.same(got, want[::-1], "trades", ("tick %d" % i, "epics", epics, "open only", open_only))
        if mine:
            # trades opened on several epics may share an instant, never go back
            us = instant(mine[int(r3 * len(mine))][1].datetime) + shift
            want = [t for _, t in mine if instant(t.datetime) >= us]
            after = make_datetime(us, style)
            got = list(strategy.get_trades(only_after=after))
            self.same(got, want[::-1], "only_after", ("tick %d" % i, "after", str(after), "shift", shift))
            got = list(strategy.get_trades(only_after=after, open_only=True))
            self.same(got, [t for t in want if t.opened_quantities > 0][::-1], "only_after", ("tick %d" % i, "open only", "after",
                                                                                              str(after)))

    def same(self, got, want, key, ctx):
        mon = self.mon
        mon.ok({id(t) for t in got} == {id(t) for t in want} and len(got) == len(want), key, "%s trades instead of %s %s",
               len(got), len(want), ctx)
        mon.ok(all(a is b for a, b in zip(got, want)), "order", "not from the newest to the oldest %s", ctx)

    def aggregates(self, strategy, trades, given, i):
        mon = self.mon
        if given is None:
            result, factor = strategy.result(), strategy.profit_factor()
        elif isinstance(given, list):
            result, factor = strategy.result(given), strategy.profit_factor(trades=given)
        else:
            # a generator can be read once
            given = list(given)
            result, factor = strategy.result(x for x in given), strategy.profit_factor(x for x in given)
        results = [t.result for t in trades]
        total = math.fsum(results)
        noise = 1e-6 + 1e-10 * sum(abs(r) for r in results)
        mon.near(result, total, 0.005 + noise, "result", "result of %s trades at tick %s" % (len(trades), i))
        gains = math.fsum(r for r in results if r > 0)
        losses = -math.fsum(r for r in results if r < 0)
        mon.ev("no_loss" if losses == 0 else "small_loss" if losses < 1 else "big_loss")
        want = gains / max(1, losses)
        mon.near(factor, want, 0.005 + noise, "factor", "profit factor of gains %s and losses %s at tick %s" % (gains, losses, i))
        if losses and gains:
            mon.nontrivial = True
        mon.sig(result, factor)


def run(spec, mon):
    World(spec, Listener(spec, mon)).run()
