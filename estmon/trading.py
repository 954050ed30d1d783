"""Trading workloads and the exact ledger they are judged against."""
from fractions import Fraction

from estmon import gen
from estmon.timeutil import DAY, HOUR, MIN, SEC, local
from estmon.world import SHARED

CENT = 0.005 + 1e-6
IDLE = ("pause", "unpause", "stop", "restart")
CALLBACKS = ("tick", "tick", "tick", "tick_open", "open", "close", "between", "between")


def trading_spec(rng, n, n_epics=None, n_strategies=None, share=None, kinds=("backtests", "backtests", "manual"),
                 ops=None, density=0.6, price=None, always=0.4, frames=False, max_q=9, step=None, orphan=0.1,
                 other_epic=0.15, mono=False, idle=0.0, late=0.0, twins=0.08, sized=0.06, noref=0.05):
    """A system of epics, strategies and providers, a chronological feed and actions."""
    wide = rng.random() < 0.04
    n_epics = n_epics or (rng.randrange(4, 9) if wide else rng.choice([1, 1, 2, 3]))
    n_strategies = n_strategies or (rng.randrange(4, 11) if wide else rng.choice([1, 2, 3]))
    share = share if share is not None else rng.choice(["one", "each", "mixed", "default"])
    epics = [gen.market(rng, always=always) for _ in range(n_epics)]
    if share == "one":
        providers = [{"kind": rng.choice(kinds)}]
        for e in epics:
            e["provider"] = 0
    elif share == "each":
        providers = [{"kind": rng.choice(kinds)} for _ in epics]
        for k, e in enumerate(epics):
            e["provider"] = k
    elif share == "default":
        providers = []
        for e in epics:
            e["provider"] = None
    else:
        providers = [{"kind": rng.choice(kinds)} for _ in range(2)]
        for e in epics:
            e["provider"] = rng.randrange(2)
    strategies = []
    for _ in range(n_strategies):
        mine = rng.sample(range(n_epics), rng.randrange(1, n_epics + 1))
        strategies.append({"epics": mine})
    if rng.random() < twins:
        # nothing makes the references of epics unique, nor these of strategies of different epics
        for e in epics:
            e["ref"] = "E"
        taken = set()
        for s in strategies:
            if not taken & set(s["epics"]):
                s["ref"] = "S"
                taken |= set(s["epics"])
    elif rng.random() < noref:
        # references are optional
        for x in rng.choice([strategies, epics, strategies + epics]):
            x["ref"] = None
    step = step or rng.choice([SEC, MIN, 10 * MIN, HOUR, 5 * HOUR])
    times = gen.time_line(rng, n, epics[0]["tz"], step, opens=(epics[0]["open"], epics[0]["close"]))
    for e in epics:
        gen.add_holidays(rng, e, times)
        if frames:
            from estmon.chart import pick_frames

            e["frame_sets"] = pick_frames(rng, rng.choice([1, 2]), tick_sets=0.5)
    style = price or rng.choice(gen.PRICE_STYLES)
    quotes = [gen.prices(rng, n, style) for _ in epics]
    feed, used = [], [0] * n_epics
    for t in times:
        e = rng.randrange(n_epics)
        b, a = quotes[e][used[e]]
        used[e] += 1
        feed.append([e, t, b, a, "arrow:UTC" if rng.random() < 0.7 else gen.tick_style(rng, epics[e]["tz"])])
    gen.resend(rng, feed)
    ops = ops or {"open": 5, "close": 4, "close_all": 0.4, "close_again": 0.5}
    names, weights = list(ops), list(ops.values())
    actions = {}
    for i in range(len(feed)):
        while rng.random() < density:
            s = rng.randrange(n_strategies)
            cb = rng.choice(CALLBACKS)
            op = rng.choices(names, weights)[0]
            how = rng.choice(["strategy", "epic"])
            if op == "open":
                e2 = None
                q = rng.choice([1, 1, 2, 3, rng.randrange(1, max_q + 1)])
                if rng.random() < 0.03:
                    q = rng.choice([100, 1000, 12345])
                extra = {}
                if rng.random() < 0.2:
                    # nothing makes references unique
                    extra = {"ref": rng.choice([f"t{i}_{len(actions.get(i, ()))}", "t", "0"]), "meta": rng.choice([{"n": i}, dict(SHARED)])}
                if cb == "between":
                    if rng.random() < orphan:
                        s = None
                    e2 = feed[i][0]
                if not mono and rng.random() < other_epic:
                    e2 = rng.randrange(n_epics)
                act = ["open", rng.choice([1, -1]), q, e2, how, extra]
            elif op in ("close", "close_again"):
                if cb == "between" and rng.random() < orphan:
                    s = None
                q = rng.choice([None, None, 1, 1, 2, 3, rng.randrange(1, max_q + 1), 0, 50])
                act = [op, rng.randrange(0, 50), q, rng.choice([how, how, how, how, "trade"])]
                if rng.random() < 0.2:
                    act.append({"ref": rng.choice([f"c{i}", "c", "0"]), "meta": rng.choice([{"c": i}, dict(SHARED)])})
            elif op == "close_all":
                act = ["close_all"]
                if rng.random() < 0.3:
                    act.append(rng.choice([{"meta": dict(SHARED)}, {"meta": {"all": i}}, {"quantity": rng.randrange(1, 4)}]))
            else:
                raise ValueError(op)
            actions.setdefault(i, []).append([s, cb] + act)
    if rng.random() < idle:
        # strategies which are paused or stopped for a while keep their trades
        for i in range(len(feed)):
            if rng.random() < 0.15:
                s = rng.randrange(n_strategies)
                act = rng.choice([["pause", s, feed[min(i + rng.randrange(1, 12), n - 1)][1], "arrow:UTC"], ["stop", s],
                                  ["restart", s], ["unpause", s]])
                actions.setdefault(i, []).insert(0, [rng.randrange(n_strategies), rng.choice(CALLBACKS)] + act)
    if rng.random() < late and n <= 60:
        # requests which are not answered before the end, statuses given with the orders
        for acts in actions.values():
            for a in acts:
                if a[2] in ("open", "close") and rng.random() < 0.4:
                    x = dict(a[7] if a[2] == "open" else a[6] if len(a) > 6 else {})
                    x["status"] = rng.choice(["CREATED", "REQUIRED", "PENDING", "CONFIRMED", "REFUSED", "CLOSED"])
                    a[7 if a[2] == "open" else 6:] = [x]
        late = True
    else:
        late = False
    return {"late": late, "providers": providers, "epics": epics, "strategies": strategies, "feed": feed, "sized": rng.random() < sized,
            "actions": {str(k): v for k, v in actions.items()}}


def settle_markets(rng, spec, rate=0.15):
    """Market hours, trading days and holidays change between ticks."""
    feed = spec["feed"]
    for i, f in enumerate(feed):
        if rng.random() < rate:
            tz = spec["epics"][f[0]]["tz"]
            now = local(f[1], tz)
            new = {"holidays": local(f[1] + rng.choice([0, 0, 0, DAY]), tz).strftime("%Y-%m-%d"),
                   "trade_days": rng.choice([[0, 1, 2, 3, 4], [0, 1, 2, 3, 4, 5, 6], [now.weekday()], [(now.weekday() + 1) % 7]]),
                   "open_time": rng.choice(["00:00", now.strftime("%H:%M"), "09:30"]),
                   "close_time": rng.choice(["23:59:59", now.strftime("%H:%M"), "17:30"])}
            key = rng.choice(sorted(new))
            spec["actions"].setdefault(str(i), []).append([None, "between", "market", f[0], {key: new[key]}])


def crowd_spec(rng, n=90, **kw):
    """Lots of trades open together: each strategy stays on one side of each epic, most of the time."""
    kw = dict({"density": 0.7, "ops": {"open": 12, "close": 1}, "always": 1.0, "n_strategies": rng.choice([1, 1, 2, 3, 4]),
               "n_epics": rng.choice([1, 2, 3]), "share": rng.choice(["one", "one", "each", "default"])}, **kw)
    spec = trading_spec(rng, n, **kw)
    sides = {}
    for i in sorted(spec["actions"], key=int):
        for a in spec["actions"][i]:
            if a[2] == "open":
                e = spec["feed"][int(i)][0] if a[5] is None else a[5]
                d = sides.setdefault((a[0], e), rng.choice([1, -1]))
                a[3] = d if rng.random() < (0.99 if int(i) < 0.7 * n else 0.8) else -d
    if rng.random() < 0.6:
        # in the end, all that is left is closed at once
        for s in range(len(spec["strategies"])):
            i = str(rng.randrange(int(0.9 * len(spec["feed"])), len(spec["feed"])))
            spec["actions"].setdefault(i, []).append([s, rng.choice(CALLBACKS[:2] + ("between",)), "close_all"])
    return spec


class Rec:
    """What a trade should be, exactly."""

    def __init__(self, n, s, e, provider, d, q, quote, us):
        self.n, self.s, self.e, self.provider, self.d, self.asked = n, s, e, provider, d, q
        self.price = Fraction(quote[1] if d == 1 else quote[0])
        self.cur = Fraction(quote[0] if d == 1 else quote[1])
        self.us = us
        self.q = q
        self.closes = []  # [quantity, price, instant, object]
        self.hi = self.lo = None

    @property
    def opened(self):
        return self.q - sum(c[0] for c in self.closes)

    def unit(self, price):
        return (price - self.price) * self.d

    def realised(self):
        return sum((c[0] * self.unit(c[1]) for c in self.closes), Fraction(0))

    def floating(self):
        return self.opened * self.unit(self.cur)

    def total(self):
        return self.realised() + self.floating()

    def mark(self):
        r = self.total()
        self.hi = r if self.hi is None else max(self.hi, r)
        self.lo = r if self.lo is None else min(self.lo, r)


class Ledger:
    """Follows every opening and closing; subclasses judge one property each.

    Closes made by netting are learnt from the trades (their quantity), their price and
    instant are those of the current quote.
    """

    def __init__(self, spec, mon):
        self.spec, self.mon = spec, mon
        self.recs = []
        self.last = [None] * len(spec["epics"])  # (us, bid, ask)
        self.now = None

        def exact_cents(x):
            return abs(x * 100 - round(x * 100)) < 1e-6

        self.unit_tol = 1e-6 if all(exact_cents(f[2]) and exact_cents(f[3]) for f in spec["feed"]) else CENT

    def tol(self, q, value=0):
        return self.unit_tol * max(1, q) + 1e-6 + 1e-11 * abs(float(value))

    def provider_of(self, e):
        p = self.spec["epics"][e].get("provider")
        return ("default", e) if p is None else ("spec", p)

    def nets(self, e):
        p = self.spec["epics"][e].get("provider")
        return p is None or self.spec["providers"][p]["kind"] == "backtests"

    # ------------------------------------------------------------ world events
    def before_tick(self, world, i, e, tick):
        us = world.spec["feed"][i][1]
        self.now = us
        self.last[e] = (us, tick.bid, tick.ask)
        for r in self.recs:
            if r.e == e and r.opened > 0:
                r.cur = Fraction(tick.bid if r.d == 1 else tick.ask)
                r.mark()
        self.mon.ev("ticks")

    def before_action(self, world, s, e, action):
        return [len(t.closes) for t in world.trades]

    def after_action(self, world, s, e, action, result, counts):
        op = action[0]
        if result is None:
            return
        self.mon.ev("action:" + op)
        if op in IDLE:
            return
        closes = self.new_closes(world, counts)
        if op == "open":
            _, d, q, e2, how, extra = action
            e2 = e if e2 is None else e2
            owner = world.origin[-1][0]
            us, bid, ask = self.last[e2]
            rec = Rec(len(self.recs), owner, e2, self.provider_of(e2), d, q, (bid, ask), us)
            self.learn(closes)
            netted = sum(c.quantity for _, c in closes)
            if netted:
                self.mon.ev("nettings")
                self.mon.ev("netted_quantity", netted)
            rec.q = q - netted if self.nets(e2) else q
            rec.mark()
            self.recs.append(rec)
            self.opened(world, rec, result, closes, action)
        else:
            self.learn(closes)
            self.closed(world, s, e, action, result, closes)

    def new_closes(self, world, counts):
        out = []
        for n, before in enumerate(counts):
            for c in list(world.trades[n].closes)[before:]:
                out.append((n, c))
        return out

    def learn(self, closes):
        for n, c in closes:
            r = self.recs[n]
            us, bid, ask = self.last[r.e]
            self.mon.ev("closes")
            r.cur = Fraction(bid if r.d == 1 else ask)
            r.closes.append([c.quantity, r.cur, us, c])

    # ------------------------------------------------------------ for subclasses
    def opened(self, world, rec, trade, closes, action):
        pass

    def closed(self, world, s, e, action, result, closes):
        pass
