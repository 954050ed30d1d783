"""C08: every opening and closing is handed to the provider exactly once, in the background, whatever it does."""
import contextlib
import json
import subprocess
import sys
import threading
import time

from estmon import gen as g
from estmon.core import Inconclusive, LibraryError
from estmon.timeutil import SEC
from estmon.world import World, lib

PROP = "C08"
TEMPLATES = [("gated", 400, 6000), ("delays", 200, 3000), ("faults", 300, 5000), ("backtests", 300, 5000), ("threads", 200, 3000),
             ("reentrant", 200, 3000), ("many", 10, 150), ("stuck", 12, 200), ("ends", 40, 600)]
RULE = ("seeded trading programs on instrumented providers whose requests block on gates, sleep, raise, or trade themselves, "
        "from one or several program threads; every request is logged with its thread and object; non-trivial: openings and "
        "closings were delivered, including by programs which end meanwhile; distinct: hash of the operations and of the order of delivery")
REQUIRED = ("judged:delivered", "judged:background", "judged:alive", "judged:idle", "judged:busy", "judged:books", "judged:confirmed",
            "requests_raised", "requests_blocked", "judged:ends")
SHRINK = ("ops",)
ASSUMPTIONS = ["a request handed over is started within 30 s", "the order of delivery is not judged"]
PATIENCE = 30


def gen(template, rng):
    n_epics = rng.choice([1, 2, 3])
    kind = {"backtests": "backtests", "faults": rng.choice(["manual", "backtests"]),
            "threads": rng.choice(["manual", "manual", "backtests"])}.get(template, "manual")
    n_strategies = rng.choice([1, 2])
    if template == "threads":
        n_epics = n_strategies = rng.choice([2, 3, 4])
    twins = rng.random() < 0.15
    ops = []
    for i in range({"many": 60, "stuck": rng.choice([20, 60, 150])}.get(template) or rng.choice([6, 12, 25])):
        e = rng.randrange(n_epics)
        s = e if template == "threads" else rng.choice([None] + list(range(n_strategies)))
        behaviour = {"gated": ["gate", "gate", "now"], "ends": ["now"], "delays": ["sleep", "now", "sleep"],
                     "faults": ["raise", "raise", "now", "exit", "gate"], "backtests": ["now", "gate", "sleep"],
                     "many": ["gate", "gate", "gate", "now"], "stuck": ["gate"] if i == 0 else ["now"],
                     "threads": ["now", "sleep", "sleep"], "reentrant": ["trade", "now", "trade"]}[template]
        ops.append(["open" if template == "stuck" and i == 0 else rng.choice(["open", "open", "close", "tick"]), e, s, rng.choice([1, -1]), rng.randrange(1, 6),
                    rng.randrange(20), rng.choice(["strategy", "epic"]), rng.choice(behaviour), rng.choice([0, 1, 3])])
    for op in ops:
        if op[0] == "close" and rng.random() < 0.25:
            op[4] = rng.choice([0, None])
    if template == "ends":
        for op in ops:
            op[0] = rng.choice(["open", "open", "close"])
            op[4] = op[4] or 1
        ops[0][0] = "open"
        return {"kind": rng.choice(["manual", "backtests"]), "n_epics": n_epics, "ops": ops, "ms": rng.choice([5, 30, 120]),
                "end": rng.choice(["fall", "exit", "raise"])}
    return {"template": template, "kind": kind, "n_epics": n_epics, "n_strategies": n_strategies, "ops": ops,
            "share": rng.random() < (0.2 if twins else 0.7) or template == "threads", "twins": twins, "slow": rng.random() < 0.4,
            "prices": g.prices(rng, 60, "cents")}


class Fault(Exception):
    pass


ASKING = threading.Lock()


def alive(provider):
    """Asked by one thread at a time: Thread.is_alive of CPython fails when two ask as a thread ends."""
    with ASKING:
        return provider.is_alive


class Log:
    """What the instrumented providers saw."""

    def __init__(self):
        self.lock = threading.Lock()
        self.requests = []  # (kind, object, thread, provider)
        self.done = 0
        self.gate = threading.Event()
        self.programs = [threading.current_thread()]  # threads of the program
        self.blocked = 0
        self.stuck = {}  # provider: requests blocked on the gate
        self.running = {}  # provider: requests which did not end
        self.raised = 0
        self.current = ("now", 0)  # behaviour of the next requests
        self.extra = []  # trades opened by requests
        self.asked = 0  # requests which asked whether their provider is busy
        self.idle = []  # those which were told that it is idle

    def request(self, provider, kind, obj):
        with self.lock:
            self.requests.append((kind, obj, threading.current_thread(), provider))
            self.running[id(provider)] = self.running.get(id(provider), 0) + 1
            behaviour, ms = self.current
        try:
            if threading.current_thread() in self.programs:
                # called by the program itself: waiting would never end
                return
            self.ask(provider, kind)
            if behaviour == "gate":
                with self.lock:
                    self.blocked += 1
                    self.stuck[id(provider)] = self.stuck.get(id(provider), 0) + 1
                self.gate.wait(PATIENCE)
            elif behaviour == "sleep":
                time.sleep(ms / 1000)
            elif behaviour == "raise":
                with self.lock:
                    self.raised += 1
                raise Fault("provider failure")
            elif behaviour == "exit":
                with self.lock:
                    self.raised += 1
                raise SystemExit(3)
            elif behaviour == "trade":
                self.trade_back(kind, obj)
        finally:
            if threading.current_thread() not in self.programs:
                self.ask(provider, kind)
            with self.lock:
                self.done += 1
                self.running[id(provider)] -= 1

    def ask(self, provider, kind):
        busy = alive(provider)
        with self.lock:
            self.asked += 1
            if busy is not True:
                self.idle.append((kind, busy))

    def ended(self, expected):
        with self.lock:
            return self.done == len(self.requests) >= len(expected) + len(self.extra)

    def trade_back(self, kind, obj):
        """The answer of the provider makes the program trade again, from the request's thread."""
        if kind == "open" and obj.meta.get("depth", 0) < 2:
            t = obj.epic.open_trade(direction=obj.direction, quantity=1, strategy=obj.strategy,
                                    meta={"depth": obj.meta.get("depth", 0) + 1})
            with self.lock:
                self.extra.append(t)


def make_provider(L, kind, log):
    base = L.Backtests if kind == "backtests" else L.BaseTradeProvider

    class Instrumented(base):
        def open_trade_request(self, trade):
            log.request(self, "open", trade)
            if kind == "backtests":
                return super().open_trade_request(trade)
            return trade

        def close_trade_request(self, trade_close):
            log.request(self, "close", trade_close)
            if kind == "backtests":
                return super().close_trade_request(trade_close)
            return trade_close

    return Instrumented()


def wait_until(cond):
    end = time.monotonic() + PATIENCE
    pause = 0.0002
    while not cond():
        if time.monotonic() > end:
            return False
        time.sleep(pause)
        pause = min(0.02, pause * 1.5)
    return True


@contextlib.contextmanager
def slow_starts(active, log):
    """Threads which order go on a little after the threads they start."""
    real = threading.Thread.start

    def start(self):
        real(self)
        if threading.current_thread() in log.programs and self not in log.programs:
            time.sleep(0.0005)

    if active:
        threading.Thread.start = start
    try:
        yield
    finally:
        threading.Thread.start = real


def run(spec, mon):
    if spec["template"] == "ends":
        run_ends(spec, mon)
        return
    L = lib()
    log = Log()
    if spec["template"] == "threads":
        with slow_starts(spec.get("slow"), log):
            run_threads(L, log, spec, mon)
        return
    previous = threading.excepthook
    threading.excepthook = lambda *a: None
    try:
        with slow_starts(spec.get("slow"), log):
            sequential(L, log, spec, mon)
    finally:
        log.gate.set()
        threading.excepthook = previous


def run_ends(spec, mon):
    """The program ends as soon as it has ordered: its requests do not."""
    try:
        done = subprocess.run([sys.executable, "-m", "estmon.exitrun"], input=json.dumps(spec).encode(), capture_output=True,
                              timeout=PATIENCE * 3)
    except subprocess.TimeoutExpired:
        raise Inconclusive("the program did not end")
    rows = [json.loads(x) for x in done.stdout.decode().splitlines()]
    if ["end"] not in rows:
        text = done.stderr.decode()[-2000:]
        if "/estrade/" in text.split("estmon")[-1]:
            raise LibraryError("ends", text)
        raise Inconclusive(text)
    orders = [r[1:] for r in rows if r[0] == "order"]
    got = [r[1:3] for r in rows if r[0] == "request"]
    for order in orders:
        mon.ok(got.count(order) == 1, "ends", "%s of a program which ends meanwhile is handed over %s times", order, got.count(order))
    mon.ok(len(got) == len(orders), "ends", "%s requests for %s operations", len(got), len(orders))
    mon.ok(not any(r[3] for r in rows if r[0] == "request"), "background", "a request ran in the thread of the program")
    mon.ev("requests", len(got))
    mon.ev("requests_after_the_end", len(rows) - 1 - rows.index(["end"]))
    mon.sig(spec["kind"], spec["end"], spec["ms"], orders)
    mon.nontrivial = rows[-1] != ["end"] and {"open", "close"} <= {k for k, _ in orders}


def build(L, log, spec):
    world = World({"epics": [], "feed": []})
    shared = make_provider(L, spec["kind"], log)
    providers = [shared if spec["share"] else make_provider(L, spec["kind"], log) for _ in range(spec["n_epics"])]
    epics = [L.Epic(ref="E" if spec["twins"] else f"E{k}", trade_provider=providers[k]) for k in range(spec["n_epics"])]

    strategies = [L.BaseStrategy(ref=f"S{k}") for k in range(spec["n_strategies"])]
    for e in epics:
        for s in strategies:
            e.add_strategy(s)
    return world, providers, epics, strategies


def feed(L, epic, k, price):
    from estmon.timeutil import make_datetime

    epic.on_new_tick(L.Tick(datetime=make_datetime((1_600_000_000 + k) * SEC, "arrow:UTC"), bid=price[0], ask=price[1]))


def sequential(L, log, spec, mon):
    world, providers, epics, strategies = build(L, log, spec)
    unique = list({id(p): p for p in providers}.values())
    for e in epics:
        feed(L, e, 0, spec["prices"][0])
    expected = []  # (kind, object)
    trades = []  # (trade, epic, strategy)
    clock = 0
    opened = closed = 0
    for op, e, s, d, q, k, how, behaviour, ms in spec["ops"]:
        strategy = None if s is None else strategies[s]
        with log.lock:
            log.current = (behaviour, ms)
        counts = [(t, len(t.closes)) for t, _, _ in trades]
        touched = None
        if op == "tick":
            clock += 1
            feed(L, epics[e], clock, spec["prices"][clock % len(spec["prices"])])
        elif op == "open":
            kw = {"direction": L.Direction(d), "quantity": q}
            if how == "strategy" and strategy is not None:
                trade = strategy.open_trade(epics[e], **kw)
            else:
                trade = epics[e].open_trade(strategy=strategy, **kw)
            if trade.open_quantity > 0:
                expected.append(("open", trade))
                touched = providers[e]
                opened += 1
            elif spec["kind"] != "backtests":
                mon.fail("books", "a quantity of %s is opened as %s", q, trade.open_quantity)
            trades.append((trade, e, s))
        else:
            # closing a trade again, or nothing of it, is a close too
            able = [t for t in trades if (t[0].open_quantity > 0 if q == 0 or k % 7 == 3 else not t[0].closed)]
            if not able:
                continue
            trade, e, s = able[k % len(able)]
            if how == "strategy" and s is not None:
                c = strategies[s].close_trade(trade, quantity=q)
            else:
                c = epics[e].close_trade(trade, quantity=q)
            expected.append(("close", c))
            touched = providers[e]
            closed += 1
            mon.ok(trade.closes[-1] is c, "books", "the close returned is not the last one of its trade")
        if op == "open":
            for t, n in counts:
                for c in t.closes[n:]:
                    expected.append(("close", c))
                    touched = touched or providers[e]
                    closed += 1
        mon.sig(op, e, s, d, q, how, behaviour)
        if touched is not None and behaviour in ("gate", "sleep", "trade") or op == "tick":
            # the request may still be running: the program is not blocked
            mon.ev("ops_while_pending")
        if not wait_until(lambda: len(log.requests) >= len(expected) + len(log.extra)):
            judge_delivery(mon, log, expected)
            mon.fail("delivered", "%s requests were handed over, %s expected", len(log.requests), len(expected))
        if touched is not None and behaviour == "gate":
            mon.ok(alive(touched) is True, "alive", "no request is said to be running while one is blocked")
        if spec["template"] in ("gated", "many", "stuck"):
            for p in unique:
                if log.stuck.get(id(p)):
                    mon.ok(alive(p) is True, "alive", "no request is said to be running while %s are blocked, after %s others",
                           log.stuck[id(p)], len(log.requests))
                elif not log.running.get(id(p)):
                    mon.ok(wait_until(lambda: not alive(p)), "idle", "requests of a provider without any are said to be running")
        for r in log.requests:
            mon.ok(r[2] not in log.programs, "background", "a request ran in the thread of the program: it blocks until the provider answers")
    # end of the blocked requests
    pending = log.blocked
    mon.ev("requests_blocked", log.blocked)
    mon.ev("requests_raised", log.raised)
    if pending and not log.gate.is_set():
        mon.ok(any(alive(p) for p in unique), "alive", "no request is said to be running while %s are blocked", pending)
    log.gate.set()
    # requests may hand over others (trade back): wait for all of them
    if not wait_until(lambda: log.ended(expected)):
        raise Inconclusive("requests did not end")
    finish(L, log, spec, mon, unique, strategies, expected + [("open", t) for t in log.extra])
    known = [t for t, _, _ in trades if t.open_quantity > 0] + log.extra
    books(mon, unique, known, strategies, [(t, s) for t, _, s in trades if t.open_quantity > 0], log)
    mon.nontrivial = bool(opened and closed)


def finish(L, log, spec, mon, unique, strategies, expected):
    mon.ok(wait_until(lambda: not any(alive(p) for p in unique)), "idle",
           "requests are still said to be running after they ended")
    time.sleep(0.001)
    judge_delivery(mon, log, expected)
    if log.asked:
        mon.ok(not log.idle, "busy", "%s of %s times, a running request is told that its provider is idle: %s", len(log.idle),
               log.asked, log.idle[:3])
    if spec["kind"] == "backtests":
        # a request which failed confirms nothing
        if not log.raised:
            for kind, obj in expected:
                mon.ok(wait_until(lambda: obj.status == L.Status.CONFIRMED), "confirmed",
                       "a simulated %s is %s instead of confirmed", kind, obj.status)
    mon.sig([r[0] for r in log.requests])


def judge_delivery(mon, log, expected):
    with log.lock:
        got = list(log.requests)
    for kind, obj in expected:
        n = sum(1 for r in got if r[0] == kind and r[1] is obj)
        mon.ok(n == 1, "delivered", "%s of %s is handed over %s times", kind, getattr(obj, "ref", obj), n)
    mon.ok(len(got) == len(expected), "delivered", "%s requests for %s operations", len(got), len(expected))
    for kind, obj, _, provider in got:
        trade = obj if kind == "open" else obj.trade
        mon.ok(trade.epic.trade_provider is provider, "delivered", "a request went to the provider of another epic")
    mon.ev("requests", len(got))


def books(mon, unique, known, strategies, owned, log):
    """The books do not depend on what the requests do."""
    listed = [t for p in unique for t in p.trades]
    mon.ok(len(listed) == len(known) and {id(t) for t in listed} == {id(t) for t in known}, "books",
           "the providers list %s trades, %s were opened", len(listed), len(known))
    for p in unique:
        got = list(p.opened_trades)
        want = [t for t in p.trades if t.opened_quantities > 0]
        mon.ok(len(got) == len(want) and {id(t) for t in got} == {id(t) for t in want}, "books",
               "%s trades are listed as open, %s are", len(got), len(want))
    for k, s in enumerate(strategies):
        want = {id(t) for t, n in owned if n == k} | {id(t) for t in log.extra if t.strategy is s}
        got = list(s.get_trades())
        mon.ok(len(got) == len(want) and {id(t) for t in got} == want, "books", "strategy %s has %s trades, opened %s", k,
               len(got), len(want))


def run_threads(L, log, spec, mon):
    """Each program thread feeds its epic and trades with its strategy, on a shared provider."""
    world, providers, epics, strategies = build(L, log, spec)
    unique = list({id(p): p for p in providers}.values())
    for e in epics:
        feed(L, e, 0, spec["prices"][0])
    expected = [[] for _ in epics]
    opened = [[] for _ in epics]
    problems = []
    start = threading.Barrier(len(epics))
    log.current = ("sleep", 1)

    def program(n):
        mine = opened[n]
        try:
            start.wait(PATIENCE)
            clock = 0
            for op, e, s, d, q, k, how, behaviour, ms in spec["ops"]:
                counts = [(t, len(t.closes)) for t in mine]
                if op == "tick":
                    clock += 1
                    feed(L, epics[n], clock, spec["prices"][clock % len(spec["prices"])])
                elif op == "open":
                    t = strategies[n].open_trade(epics[n], direction=L.Direction(d), quantity=q)
                    for x, c in counts:
                        expected[n] += [("close", y) for y in x.closes[c:]]
                    if t.open_quantity > 0:
                        expected[n].append(("open", t))
                        mine.append(t)
                else:
                    able = [t for t in mine if not t.closed]
                    if able:
                        expected[n].append(("close", strategies[n].close_trade(able[k % len(able)], quantity=q)))
        except BaseException as x:  # noqa: judged below
            problems.append(x)

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [threading.Thread(target=program, args=(n,)) for n in range(len(epics))]
        log.programs += threads
        for t in threads:
            t.start()
        for t in threads:
            t.join(PATIENCE * 2)
            if t.is_alive():
                raise Inconclusive("a program thread did not end")
    finally:
        sys.setswitchinterval(interval)
    if problems:
        raise problems[0]
    flat = [x for row in expected for x in row]
    if not wait_until(lambda: log.ended(flat)):
        judge_delivery(mon, log, flat)
        raise Inconclusive("requests did not end")
    for r in log.requests:
        mon.ok(r[2] not in log.programs, "background", "a request ran in a thread of the program")
    finish(L, log, spec, mon, unique, strategies, flat)
    known = [t for row in opened for t in row]
    books(mon, unique, known, strategies, [(t, n) for n, row in enumerate(opened) for t in row], log)
    mon.ev("program_threads", len(epics))
    mon.nontrivial = {"open", "close"} <= {k for k, _ in flat}
