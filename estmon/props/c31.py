"""C31: a failing strategy is reported to the caller, and its tick is handled exactly once."""
from estmon import chart, snap, trading
from estmon.chart import is_open
from estmon.world import World

PROP = "C31"
TEMPLATES = [("mixed", 320, 5000), ("often", 120, 1800), ("edges", 120, 1800)]
RULE = ("seeded systems whose strategies raise inside any callback (first, market open and close, last tick of a frame); a "
        "twin system whose strategies do not fail receives the same ticks and orders; prices, frames, indicators, market "
        "and trades must stay the same; non-trivial: failures followed by handled ticks; distinct: hash of the failures")
REQUIRED = ("judged:reported", "judged:same", "judged:later", "failures:tick", "failures:open", "failures:close",
            "failures:tick_open")
SHRINK = ("feed",)
ASSUMPTIONS = ["whether the other strategies of the epic are still called for the tick is not judged",
               "orders are given between ticks"]


class Boom(Exception):
    pass


class BoomKey(KeyError):
    pass


class BoomIndex(IndexError):
    pass


class BoomStop(StopIteration):
    pass


class BoomAttr(AttributeError):
    pass


class BoomBase(BaseException):
    pass


BASES = [Boom, BoomKey, BoomIndex, BoomStop, BoomAttr, BoomBase, ValueError, TypeError, ZeroDivisionError, OverflowError,
         AssertionError, RuntimeError, NotImplementedError, OSError, TimeoutError, UnicodeError, MemoryError, RecursionError,
         EOFError, ImportError, NameError, Warning, BufferError, TabError]
LIBRARY = ["EpicException", "TradeException", "TickException", "FrameSetException", "TimeException", "TimeFrameException",
           "BaseIndicatorException", "EstradeException", "TradeProviderException"]
N_BOOMS = len(BASES) + len(LIBRARY)


def boom(L, kind, text):
    if kind < len(BASES):
        base = BASES[kind]
    else:
        base = getattr(L.exc, LIBRARY[kind - len(BASES)], Boom)
    return type("Failure", (base,), {})(text)


def gen(template, rng):
    n = rng.choice([12, 30, 50])
    spec = trading.trading_spec(rng, n, always=0.1 if template == "edges" else 0.5, density=0.4)
    spec["actions"] = {k: [a for a in v if a[1] == "between"] for k, v in spec["actions"].items()}
    for e, epic in enumerate(spec["epics"]):
        epic["frame_sets"] = []
        mine = [f for f in spec["feed"] if f[0] == e]
        for f in chart.pick_frames(rng, rng.choice([1, 2]), tick_sets=0.4):
            kinds = rng.sample([{"kind": "candle"}, {"kind": "ha"}, {"kind": "pivot"}, {"kind": "sma", "n": 3}], 2)
            f["indicators"] = [dict(k, ref=f"i{j}", moo=rng.random() < 0.4) for j, k in enumerate(kinds)]
            if chart.count_frames(f, epic["tz"], mine, 100) == len(mine):
                epic["frame_sets"].append(f)
    spec["fail"] = {}
    rate = 0.6 if template == "often" else 0.2
    for i in range(n):
        for s in range(len(spec["strategies"])):
            if rng.random() < rate:
                spec["fail"].setdefault(str(i), []).append([s, rng.choice(["tick", "tick_open", "open", "close"]),
                                                            rng.choice([0, rng.randrange(N_BOOMS)])])
    return spec


class Listener:
    def __init__(self, spec, mon):
        self.spec, self.mon = spec, mon
        self.raised = None
        self.calls = []

    def before_tick(self, world, i, e, tick):
        self.i = i
        self.raised = None
        self.seen = None
        self.calls = []

    def on_callback(self, world, s, name, e):
        self.calls.append((s, name))
        for n, callback, kind in self.spec["fail"].get(str(self.i), ()):
            if n == s and callback == name:
                self.raised = boom(world.L, kind, f"strategy {s} fails in {name} at tick {self.i}")
                self.mon.ev("failures:" + name)
                raise self.raised

    def on_exception(self, world, i, e, x):
        if not isinstance(x, Exception) and x is not self.raised:
            return False
        self.seen = x
        return True


def run(spec, mon):
    listener = Listener(spec, mon)
    plain, failing = World(spec), World(spec, listener)
    was = [False] * len(spec["epics"])
    failures = 0
    for i, item in enumerate(spec["feed"]):
        e = item[0]
        plain.feed(i)
        failing.feed(i)
        x = listener.seen
        mon.ok(x is listener.raised or x is not None and x.__cause__ is listener.raised is not None, "reported",
               "tick %s: strategies raised %r, the caller got %r", i, listener.raised, x)
        d = snap.diff(snap.world(plain), snap.world(failing))
        mon.ok(d is None, "same", "tick %s (failure: %r), without against with failures: %s", i, listener.raised, d)
        mon.ok(failing.epics[e].last_tick is failing.current_tick, "same", "last tick after tick %s", i)
        now = is_open(spec["epics"][e], item[1])
        if listener.raised is None:
            want = ([("open" if now else "close")] if now != was[e] else []) + (["tick_open"] if now else []) + ["tick"]
            for s, st in enumerate(spec["strategies"]):
                got = [name for n, name in listener.calls if n == s]
                mon.ok(got == (want if e in st["epics"] else []), "later", "strategy %s called with %s at tick %s, after %s failures",
                       s, got, i, failures)
            if failures:
                mon.nontrivial = True
        else:
            failures += 1
        was[e] = now
        mon.sig(e, repr(listener.raised))
    plain.join()
    failing.join()
