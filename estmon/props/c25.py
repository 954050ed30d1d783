"""C25: invalid or duplicate configurations are refused, without any effect; valid ones all work."""
import pytz

from estmon import gen as g
from estmon.timeutil import MIN, SEC, make_datetime
from estmon.world import lib, sized

PROP = "C25"
TEMPLATES = [("mixed", 400, 6000), ("duplicates", 200, 3000), ("indicators", 200, 3000), ("frames", 100, 1500)]
RULE = ("seeded sequences of creations and registrations, valid or not, interleaved with ticks and orders; a model says "
        "which are refused, and everything registered must keep working; non-trivial: both refusals and acceptances, with "
        "ticks after a refusal; distinct: hash of the decisions")
REQUIRED = ("judged:timezone", "judged:timeframe", "judged:frame_set", "judged:strategy", "judged:indicator", "judged:direction",
            "judged:lookup", "judged:served", "judged:not_served", "refused", "accepted", "offered")
SHRINK = ("ops",)
ASSUMPTIONS = ["a frame set is registered on one epic", "quantities of units are integers",
               "adding two indicators of a same reference to a frame set is not judged"]

VALID = set(pytz.all_timezones)
ZONES = g.ZONES * 10 + sorted(VALID)
BAD_ZONES = ["", "Mars/Olympus", "utc+1", "Europe/Pariss", "+02:00", "europe/paris", None, "utc", "local", "localtime", "posix/Europe/Paris",
             "Europe/Paris ", "EST5EDT4", "Europe", "UTC+2", "GMT+25", "tzlocal()"]
LIMITS = {"SECOND": 60, "MINUTE": 60, "HOUR": 12, "DAY": 7, "WEEK": 1, "MONTH": 12}


def valid_frame(unit, q):
    if q <= 0:
        return False
    return unit in ("TICK", "YEAR") or LIMITS[unit] % q == 0


def gen(template, rng):
    weights = {"epic": 2, "zone": 1, "frame": 4, "add_frame": 5, "strategy": 2, "add_strategy": 5, "indicator": 4, "tick": 6,
               "order": 2, "lookup": 1}
    if template == "duplicates":
        weights.update(add_frame=12, add_strategy=12)
    if template == "indicators":
        weights.update(indicator=14, frame=6, add_frame=9)
    if template == "frames":
        weights.update(frame=30)
    ops = [["epic", "E0", "UTC"], ["frame", "F0", "MINUTE", 5, None], ["strategy", "S0"]]
    names, w = list(weights), list(weights.values())
    for _ in range(rng.choice([10, 25, 50])):
        op = rng.choices(names, w)[0]
        r = rng.randrange(1000)
        if op == "epic":
            ops.append(["epic", f"E{rng.randrange(3)}", rng.choice(ZONES) if rng.random() < 0.6 else rng.choice(BAD_ZONES)])
        elif op == "zone":
            ops.append(["zone", r, rng.choice(ZONES) if rng.random() < 0.4 else rng.choice(BAD_ZONES)])
        elif op == "frame":
            unit = rng.choice(["TICK", "SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "YEAR"])
            q = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 24, 30, 45, 60, 90, 120, 0, -1, -5, rng.randrange(-9, 130)])
            ops.append(["frame", f"F{rng.randrange(4)}", unit, q, rng.choice([None, None, 2, 5, 14])])
        elif op in ("add_frame", "add_strategy"):
            ops.append([op, rng.randrange(1000), r])
        elif op == "strategy":
            ops.append(["strategy", f"S{rng.randrange(3)}"])
        elif op == "indicator":
            kind = rng.choice(["rsi", "rsi", "rsi", "candle", "ha", "pivot", "sma"])
            if rng.random() < 0.25:
                # an indicator which may already be registered, or refused, elsewhere
                ops.append(["offer", r, rng.randrange(1000)])
            else:
                ops.append(["indicator", r, kind, rng.choice([1, 2, 5, 14, 20, 50, 100, 101])])
        elif op == "tick":
            ops.append(["tick", r, rng.choice([SEC, MIN, 7 * MIN])])
        elif op == "order":
            ops.append(["order", r, rng.choice([1, -1, {"bad": "BUY"}, {"bad": None}, {"bad": 1}, {"bad": "member"}])])
        else:
            ops.append(["lookup", rng.choice(["E0", "E1", "E2", "E9", ""])])
    ops += [["tick", k, MIN] for k in range(4)]
    return {"ops": ops, "sized": rng.random() < 0.2}


def run(spec, mon):
    L = lib()
    calls = []

    class Strategy(sized(L.BaseStrategy, spec)):
        def on_every_tick(self, epic):
            calls.append((self, epic))

    epics, frames, strategies, offered = [], [], [], []
    # what the model knows
    placed = {}  # id(frame set) -> epic
    served = {}  # id(frame set) -> ticks received
    members = {}  # id(epic) -> {ref: strategy}
    sets = {}  # id(epic) -> {ref: frame set}
    inds = {}  # id(frame set) -> {ref: indicator}
    zones = {}
    clock = 1_600_000_000 * SEC
    kinds = set()

    def attempt(key, want, ctx, call):
        """Performs a call which must succeed (want) or be refused by the library."""
        try:
            out = call()
            refused = None
        except L.exc.EstradeException as e:
            out, refused = None, e
        mon.ok((refused is None) == want, key, "%s: %s", "refused although valid" if refused else "accepted although invalid",
               (ctx, refused))
        mon.ev("accepted" if want else "refused")
        kinds.add(want)
        mon.sig(ctx, want)
        return out

    def consistent(ctx):
        for e in epics:
            mon.ok(dict(e.frame_sets) == sets[id(e)], "frame_set", "frame sets of %s: %s after %s", e.ref, list(e.frame_sets), ctx)
            mon.ok(dict(e.strategies) == members[id(e)], "strategy", "strategies of %s: %s after %s", e.ref, list(e.strategies), ctx)
            mon.ok(e.timezone == zones[id(e)], "timezone", "timezone of %s is %s after %s", e.ref, e.timezone, ctx)
        for f in frames:
            mon.ok(f.epic is placed.get(id(f)), "frame_set", "epic of %s after %s", f.ref, ctx)
            mon.ok(dict(f.indicators) == inds[id(f)], "indicator", "indicators of %s: %s after %s", f.ref, list(f.indicators), ctx)
        for s in strategies:
            mine = {e.ref: e for e in epics if any(x is s for x in members[id(e)].values())}
            refs = {e.ref for e in epics if any(x is s for x in members[id(e)].values())}
            mon.ok(set(s.epics) == refs and all(any(s.epics[r] is e for e in epics if e.ref == r) for r in mine), "strategy",
                   "epics of %s: %s after %s", s.ref, list(s.epics), ctx)

    for n, op in enumerate(spec["ops"]):
        ctx = (n,) + tuple(str(x) for x in op)
        what = op[0]
        if what == "epic":
            e = attempt("timezone", op[2] in VALID, ctx, lambda: L.Epic(ref=op[1], timezone=op[2]))
            if e is not None:
                epics.append(e)
                sets[id(e)], members[id(e)], zones[id(e)] = {}, {}, op[2]
        elif what == "zone":
            e = epics[op[1] % len(epics)]
            attempt("timezone", op[2] in VALID, ctx, lambda: setattr(e, "timezone", op[2]))
            if op[2] in VALID:
                zones[id(e)] = op[2]
        elif what == "frame":
            kw = {"max_frames_in_memory": op[4]} if op[4] else {}
            f = attempt("timeframe", valid_frame(op[2], op[3]), ctx,
                        lambda: L.FrameSet(unit=L.Unit[op[2]], unit_quantity=op[3], ref=op[1], **kw))
            if f is not None:
                frames.append(f)
                inds[id(f)], served[id(f)] = {}, 0
        elif what == "add_frame":
            e, f = epics[op[1] % len(epics)], frames[op[2] % len(frames)]
            if id(f) in placed and placed[id(f)] is not e:
                continue
            want = f.ref not in sets[id(e)]
            attempt("frame_set", want, ctx, lambda: e.add_frame_set(f))
            if want:
                sets[id(e)][f.ref] = f
                placed[id(f)] = e
        elif what == "strategy":
            strategies.append(Strategy(ref=op[1]))
        elif what == "add_strategy":
            e, s = epics[op[1] % len(epics)], strategies[op[2] % len(strategies)]
            if any(x is not e and x.ref == e.ref for x in s.epics.values()):
                continue
            want = s.ref not in members[id(e)]
            attempt("strategy", want, ctx, lambda: e.add_strategy(s))
            if want:
                members[id(e)][s.ref] = s
        elif what == "indicator":
            f = frames[op[1] % len(frames)]
            ref = f"I{n}"
            ind = {"rsi": lambda: L.RSI(periods=op[3], ref=ref), "candle": lambda: L.CandleSet(ref=ref),
                   "ha": lambda: L.CandleSet(candle_type=L.CandleType.HEIKIN_ASHI, ref=ref), "pivot": lambda: L.Pivot(ref=ref),
                   "sma": lambda: L.SMA(max_periods=op[3], ref=ref)}[op[2]]()
            want = op[2] != "rsi" or op[3] * f.unit_quantity <= f.max_frames_in_memory
            attempt("indicator", want, ctx, lambda: f.add_indicator(ind))
            if want:
                inds[id(f)][ref] = ind
                mon.ok(ind.frame_set is f, "indicator", "frame set of an indicator %s", ctx)
            if op[2] == "rsi":
                offered.append(ind)
                if want:
                    # never offered to another frame set
                    twin = L.RSI(periods=op[3], ref=ref + "t")
                    f.add_indicator(twin)
                    inds[id(f)][ref + "t"] = twin
        elif what == "offer":
            if not offered:
                continue
            f, ind = frames[op[1] % len(frames)], offered[op[2] % len(offered)]
            was = [x for x in frames if inds[id(x)].get(ind.ref) is ind]
            want = ind.periods * f.unit_quantity <= f.max_frames_in_memory
            if want and was:
                continue
            attempt("indicator", want, ctx, lambda: f.add_indicator(ind))
            if want:
                inds[id(f)][ind.ref] = ind
                was = [f]
            mon.ok(not was or ind.frame_set is was[0], "indicator", "frame set of an indicator after it is offered to another %s", ctx)
            mon.ev("offered" if was else "refused_twice")
        elif what == "order":
            e = epics[op[1] % len(epics)]
            good = not isinstance(op[2], dict)
            direction = L.Direction(op[2]) if good else L.Unit.TICK if op[2]["bad"] == "member" else op[2]["bad"]
            before = list(e.trade_provider.trades)
            trade = attempt("direction", good, ctx, lambda: e.open_trade(direction=direction, quantity=1))
            if good and trade.open_quantity > 0:
                before.append(trade)
            mon.ok(list(e.trade_provider.trades) == before, "direction", "trades of the provider after %s", ctx)
        elif what == "lookup":
            provider = L.BaseTickProvider(epics)
            got = provider.get_epic_by_ref(op[1])
            same = [e for e in epics if e.ref == op[1]]
            if len(same) <= 1:
                mon.ok(got is (same[0] if same else None), "lookup", "epic %r is found as %s", op[1], got)
        else:
            clock += op[2]
            e = epics[op[1] % len(epics)]
            del calls[:]
            tick = L.Tick(datetime=make_datetime(clock, "arrow:UTC"), bid=n, ask=n + 1)
            e.on_new_tick(tick)
            mon.ok(sorted(s.ref for s, x in calls if x is e) == sorted(members[id(e)]) and all(x is e for _, x in calls)
                   and all(any(s is m for m in members[id(e)].values()) for s, _ in calls), "served",
                   "strategies %s called for %s, registered %s", [s.ref for s, _ in calls], e.ref, list(members[id(e)]))
            for f in frames:
                if placed.get(id(f)) is e:
                    served[id(f)] += 1
                    mon.ok(f.current is not None and f.current.last_tick is tick, "served", "frame set %s of %s %s", f.ref, e.ref, ctx)
                    # an indicator added after the birth of the frame has its first value now
                    for ref in inds[id(f)]:
                        mon.ok(f.current[ref] is not None and f.current[ref].last_tick is tick, "served", "indicator %s of %s %s", ref,
                               f.ref, ctx)
                        twin = f.current[ref + "t"] if ref + "t" in inds[id(f)] else None
                        if twin is not None:
                            mon.ok(f.current[ref].value == twin.value, "served", "value of %s is %s, never refused elsewhere it is %s %s",
                                   ref, f.current[ref].value, twin.value, ctx)
                    extra = [r for r in f.current.indicators if r not in inds[id(f)]]
                    mon.ok(not extra, "not_served", "refused indicators %s are computed %s", extra, ctx)
                else:
                    mon.ok(f.current is None or f.current.last_tick is not tick, "not_served",
                           "frame set %s received a tick of %s %s", f.ref, e.ref, ctx)
            for other in epics:
                for ref, f in sets[id(other)].items():
                    mon.ok(other.get_frame(ref) is f.current, "lookup", "frame of %s on %s %s", ref, other.ref, ctx)
            if False in kinds and True in kinds:
                mon.nontrivial = True
            continue
        consistent(ctx)
