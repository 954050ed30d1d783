"""C27: paused and stopped strategies are not called, others are, and a pause ends at the announced instant."""
from fractions import Fraction

from estmon import gen as g, trading
from estmon.chart import is_open
from estmon.timeutil import DAY, HOUR, MIN, SEC
from estmon.world import World

PROP = "C27"
TEMPLATES = [("mixed", 300, 5000), ("exact", 200, 3000), ("dst", 120, 2000), ("trades", 150, 2500), ("long", 8, 120)]
RULE = ("seeded pauses (ending exactly at, 1us before and after ticks, in other timezones and repeated hours), stops, "
        "restarts, from callbacks of the strategy itself and between ticks; non-trivial: a strategy was skipped while paused "
        "and called again later; distinct: hash of the calls")
REQUIRED = ("judged:called", "judged:skipped_paused", "judged:skipped_stopped", "judged:valued", "resumed", "exact_end", "decided_by_another")
SHRINK = ("feed",)
ASSUMPTIONS = ["the calls of a strategy which started at a tick are not judged against what is decided during them",
               "ticks of the epics of a strategy are chronological"]


def gen(template, rng):
    n = 400 if template == "long" else rng.choice([12, 30, 60])
    spec = trading.trading_spec(rng, n, always=0.6, density=0.5 if template == "trades" else 0.15,
                                step=10 * MIN if template == "dst" else None, mono=True)
    feed = spec["feed"]
    tz = spec["epics"][0]["tz"]
    if template == "dst":
        from estmon.timeutil import at

        tz = rng.choice([z for z in g.HOSTILE if z != "UTC"])
        shift = at(rng.choice(g.HOSTILE[tz]), tz) - feed[0][1]
        for f in feed:
            f[1] += shift
        for e in spec["epics"]:
            e["tz"] = tz
    for i in range(len(feed)):
        while rng.random() < 0.25:
            s = rng.randrange(len(spec["strategies"]))
            cb = rng.choice(["tick", "tick", "tick_open", "open", "close", "between", "between", "between"])
            op = rng.choice(["pause", "pause", "pause", "pause", "unpause", "stop", "restart", "restart"])
            mine = s
            if cb != "between" and rng.random() < 0.3:
                # a strategy decides for another one
                s = rng.randrange(len(spec["strategies"]))
            if op == "pause":
                target = feed[min(len(feed) - 1, i + rng.randrange(0, 8))][1]
                shifts = [0, 0, 0, 1, -1] if template == "exact" else [0, 1, -1, SEC, -SEC, MIN, -HOUR, HOUR, -DAY]
                until = target + rng.choice(shifts)
                style = g.tick_style(rng, tz)
                if not style.startswith("arrow"):
                    style = "arrow:" + rng.choice([tz, "UTC", rng.choice(g.ZONES)])
                act = [mine, cb, "pause", s, until, style]
            else:
                act = [mine, cb, op, s]
            spec["actions"].setdefault(str(i), []).append(act)
    return spec


class Ledger(trading.Ledger):
    def __init__(self, spec, mon):
        super().__init__(spec, mon)
        self.was = [False] * len(spec["epics"])
        n = len(spec["strategies"])
        self.until = [None] * n
        self.stopped = [False] * n
        self.skipped = [False] * n
        self.calls = []
        self.done = True
        self.moved = set()

    def before_tick(self, world, i, e, tick):
        super().before_tick(world, i, e, tick)
        us = self.now
        self.done = False
        self.open_now = is_open(self.spec["epics"][e], us)
        self.calls = []
        self.moved = set()  # strategies whose state changed during this tick
        self.active = []
        for s in range(len(self.until)):
            if e in self.spec["strategies"][s]["epics"]:
                if self.until[s] is not None and us == self.until[s]:
                    self.mon.ev("exact_end")
                paused = self.until[s] is not None and us < self.until[s]
                self.active.append("stopped" if self.stopped[s] else "paused" if paused else "active")
            else:
                self.active.append("foreign")

    def state(self, s):
        if self.stopped[s]:
            return "stopped"
        return "paused" if self.until[s] is not None and self.now < self.until[s] else "active"

    def on_callback(self, world, s, name, e):
        if all(n != s for n, _ in self.calls):
            # its first call of this tick
            now = self.state(s)
            if s in self.moved:
                self.mon.ev("decided_during_the_tick")
                self.mon.ok(now == "active", "skipped_" + now if now != "active" else "called",
                            "strategy %s is called although it was %s just before", s, now)
        self.calls.append((s, name))

    def after_action(self, world, s, e, action, result, token):
        op = action[0]
        if op in trading.IDLE and not self.done:
            self.moved.add(action[1])
        if op == "pause":
            self.until[action[1]] = action[2]
        elif op == "unpause":
            self.until[action[1]] = None
        elif op in ("stop", "restart"):
            self.stopped[action[1]] = op == "stop"
        else:
            super().after_action(world, s, e, action, result, token)

    def after_tick(self, world, i, e, tick):
        mon = self.mon
        self.done = True
        moved = self.open_now != self.was[e]
        self.was[e] = self.open_now
        want = (["open" if self.open_now else "close"] if moved else []) + (["tick_open"] if self.open_now else []) + ["tick"]
        for s, how in enumerate(self.active):
            got = [name for n, name in self.calls if n == s]
            ctx = ("strategy", s, "tick", i, "epic", e, how)
            if s in self.moved and (all(n != s for n, _ in self.calls) or how != "active"):
                # decided by another strategy during the tick
                mon.ok(not got or got == want, "called", "called with %s instead of %s or nothing %s", got, want, ctx)
                mon.ev("decided_by_another")
            elif how == "active":
                mon.ok(got == want, "called", "called with %s instead of %s %s", got, want, ctx)
                if self.skipped[s]:
                    mon.ev("resumed")
                    mon.nontrivial = True
                    self.skipped[s] = False
            elif how == "foreign":
                mon.ok(not got, "called", "called with %s %s", got, ctx)
            else:
                mon.ok(not got, "skipped_" + how, "called with %s, paused until %s %s", got, self.until[s], ctx)
                if how == "paused":
                    self.skipped[s] = True
            mon.sig(s, how, got)
        # trades live on
        for r in self.recs:
            if r.e == e and r.opened > 0 and r.n < len(world.trades):
                mon.ok(Fraction(world.trades[r.n].current_close_value) == r.cur, "valued",
                       "trade %s of strategy %s is not revalued at tick %s", r.n, r.s, i)


def run(spec, mon):
    World(spec, Ledger(spec, mon)).run()
