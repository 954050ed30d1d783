"""C01: ticks are valid quotes at a known instant, or are refused."""
from datetime import datetime, timedelta

from estmon import gen as g
from estmon.indic import cents
from estmon.timeutil import at, instant, local, make_datetime
from estmon.world import World, lib

PROP = "C01"
TEMPLATES = [("quotes", 120, 2500), ("refused", 60, 1200), ("instants", 120, 2500), ("fed", 80, 1500)]
RULE = ("seeded quotes (cents, 5 decimals, zero, negative, huge, equal, inverted, not a number, not numeric) at instants "
        "given by every kind of timezoned datetime, around DST changes and year ends, alone and sent to epics of other "
        "timezones; non-trivial: accepted and refused ticks were judged; distinct: hash of the quotes accepted and refused")
REQUIRED = ("judged:accepted", "judged:refused_quote", "judged:refused_type", "judged:refused_datetime", "judged:spread",
            "judged:value", "judged:instant", "judged:local", "judged:setter", "changed")
SHRINK = ("items",)
ASSUMPTIONS = ["numbers are int or float", "infinite quotes, booleans and decimals are not judged",
               "instants of zones with DST before 2036 (UTC and fixed offsets: years 2 to 9998)"]

FIRST, LAST = at("0002-01-01T00:00"), at("9998-12-31T00:00")
ANY_YEAR = ["arrow:UTC", "py:UTC", "pytz:UTC", "dateutil:UTC", "sub:UTC", "fixed:330", "fixed:-720", "fixed:840", "fixed:1",
            "arrowfixed:-570", "arrowfixed:60"]
BAD_VALUES = ["text", "1.5", None, [1], {"a": 1}, "nan"]
BAD_DATES = ["none", "naive", "date", "text", "stamp", "naive_fold"]


def number(rng):
    k = rng.randrange(9)
    if k < 3:
        return rng.randrange(-500_00, 30_000_00) / 100
    if k == 3:
        return rng.randrange(-20, 20) / 100
    if k == 4:
        return round(rng.uniform(-2, 2), 5)
    if k == 5:
        return rng.randrange(-1000, 100000)
    if k == 6:
        return rng.uniform(-1e6, 1e6)
    if k == 7:
        return rng.choice([0, 0.0, -0.0, 1e-9, -1e-9, 5e-324, 0.005, 0.015, 1.005, -0.005, 1e15, -1e15, 0.1 + 0.2])
    return rng.randrange(1, 10 ** 9) / 1000


def quote(rng):
    a = number(rng)
    k = rng.randrange(8)
    if k == 0:
        return a, a
    if k == 1:
        return a, a + abs(number(rng))
    if k == 2:
        b = number(rng)
        return min(a, b), max(a, b)
    if k == 3:
        # inverted by very little
        return a + max(1e-9, abs(a) * 1e-15), a
    if k == 4:
        b = number(rng)
        return max(a, b), min(a, b)
    return a, round(a + rng.choice([0, 0.01, 0.02, 0.05, 0.5, 1, 0.00001]), 5) if abs(a) < 1e9 else a


def gen(template, rng):
    tz = rng.choice(g.ZONES)
    items = []
    times = g.time_line(rng, 30, tz, rng.choice([1_000_000, 60_000_000, 1800_000_000, 86400_000_000]))
    for t in times:
        item = {"us": t, "style": g.tick_style(rng, tz)}
        if template == "instants" and rng.random() < 0.25:
            # any year: UTC and fixed offsets, whose local times do not depend on a table of zones
            item = {"us": rng.randrange(FIRST, LAST), "style": rng.choice(ANY_YEAR)}
        item["bid"], item["ask"] = quote(rng)
        if template == "fed":
            item["bid"], item["ask"] = sorted((item["bid"], item["ask"]))
        if template == "refused":
            r = rng.random()
            if r < 0.35:
                item[rng.choice(["bid", "ask"])] = {"bad": rng.choice(BAD_VALUES)}
                if rng.random() < 0.3:
                    item["ask"] = {"bad": rng.choice(BAD_VALUES)}
            elif r < 0.75:
                item["date"] = rng.choice(BAD_DATES)
                if rng.random() < 0.7:
                    item["bid"], item["ask"] = 1, 2
        items.append(item)
    out = {"items": items, "epics": [], "tz": tz}
    if template == "fed":
        out["epics"] = [{"tz": rng.choice(g.ZONES), "open": "09:30:00", "close": "17:30:00", "days": [0, 1, 2, 3, 4],
                         "holidays": []} for _ in range(2)]
        for k, e in enumerate(out["epics"]):
            e["ref"] = f"E{k}"
    return out


def real(v):
    if isinstance(v, dict):
        return float("nan") if v["bad"] == "nan" else v["bad"]
    return v


def bad_date(kind, us):
    naive = datetime(1970, 1, 1) + timedelta(microseconds=us)
    return {"none": None, "naive": naive, "date": naive.date(), "text": naive.isoformat() + "+00:00",
            "stamp": us / 1e6, "naive_fold": naive.replace(fold=1)}[kind]


def run(spec, mon):
    L = lib()
    world = World({"epics": spec["epics"], "feed": []})
    kinds = set()
    last = [None] * len(spec["epics"])
    for n, item in enumerate(spec["items"]):
        bid, ask = real(item["bid"]), real(item["ask"])
        us, style = item["us"], item["style"]
        dt = bad_date(item["date"], us) if item.get("date") else make_datetime(us, style)
        numeric = isinstance(bid, (int, float)) and isinstance(ask, (int, float))
        good = numeric and bid <= ask and not item.get("date")
        ctx = (n, "bid", bid, "ask", ask, "at", str(dt))
        try:
            meta = {"n": n}
            tick = L.Tick(datetime=dt, bid=bid, ask=ask, meta=meta)
            error = None
        except L.exc.EstradeException as e:
            tick, error = None, e
        if not good:
            key = ("refused_type" if not numeric or bid != bid or ask != ask else
                   "refused_quote" if not bid <= ask else "refused_datetime")
            mon.ok(error is not None, key, "an invalid tick is accepted %s", ctx)
            kinds.add("refused")
            mon.sig("refused", key)
            continue
        mon.ok(error is None, "accepted", "a valid tick is refused %s: %s", ctx, error)
        judge(mon, tick, us, bid, ask, ctx)
        mon.ok(tick.meta == {"n": n}, "accepted", "meta data %s", ctx)
        kinds.add("accepted")
        mon.sig(tick.bid, tick.ask, tick.value)
        # a refused change leaves the tick unchanged
        wrong = [None, "2", [], {}, "abc"][n % 5]
        for name in ("bid", "ask"):
            try:
                setattr(tick, name, wrong)
                refused = False
            except L.exc.EstradeException:
                refused = True
            mon.ok(refused, "setter", "%s can be set to %r", name, wrong)
        try:
            tick.datetime = bad_date(BAD_DATES[n % len(BAD_DATES)], us)
            refused = False
        except L.exc.EstradeException:
            refused = True
        mon.ok(refused, "setter", "datetime without timezone accepted %s", BAD_DATES[n % len(BAD_DATES)])
        judge(mon, tick, us, bid, ask, ctx)
        other = spec["items"][n - 1] if n and not spec["epics"] else None
        if other and not isinstance(other["bid"], dict) and not isinstance(other["ask"], dict) and other["bid"] <= other["ask"]:
            # an accepted change is shown at once
            if other["ask"] < tick.bid:
                tick.bid, tick.ask = other["bid"], other["ask"]
            else:
                tick.ask, tick.bid = other["ask"], other["bid"]
            judge(mon, tick, us, other["bid"], other["ask"], (ctx, "changed"))
            if not other.get("date"):
                tick.datetime = make_datetime(other["us"], other["style"])
                judge(mon, tick, other["us"], other["bid"], other["ask"], (ctx, "moved"))
            mon.ev("changed")
        if spec["epics"]:
            e = n % len(spec["epics"])
            if last[e] is not None and us < last[e]:
                continue
            last[e] = us
            world.epics[e].on_new_tick(tick)
            judge(mon, tick, us, bid, ask, ctx)
            mon.ok(world.epics[e].last_tick is tick, "accepted", "last tick of the epic %s", ctx)
            want = local(us, spec["epics"][e]["tz"])
            got = tick.datetime
            mon.ok(got.utcoffset() == want.utcoffset() and got.naive == want.replace(tzinfo=None, fold=0), "local",
                   "local time %s instead of %s on an epic of %s", got, want, spec["epics"][e]["tz"])
    mon.nontrivial = len(kinds) == 2 or bool(spec["epics"])


def judge(mon, tick, us, bid, ask, ctx):
    mon.ok(tick.bid == bid and tick.ask == ask and isinstance(tick.bid, float) and isinstance(tick.ask, float), "accepted",
           "quote %s/%s %s", tick.bid, tick.ask, ctx)
    scale = 1e-12 * (abs(bid) + abs(ask))
    mon.near(tick.spread, float(ask) - float(bid), 0.005 + 1e-9 + scale, "spread", "spread %s" % (ctx,))
    mon.near(tick.value, float(bid) + (float(ask) - float(bid)) / 2, 0.0075 + 1e-9 + scale, "value", "value %s" % (ctx,))
    if abs(bid) + abs(ask) < 1e8:
        mon.ok(cents(tick.spread), "spread", "spread %r is not rounded to cents %s", tick.spread, ctx)
        mon.ok(cents(tick.value), "value", "value %r is not rounded to cents %s", tick.value, ctx)
    mon.ok(instant(tick.datetime) == us, "instant", "instant %s instead of %s %s", instant(tick.datetime), us, ctx)
    u = tick.datetime_utc
    mon.ok(instant(u) == us and u.utcoffset() == timedelta(0), "instant", "UTC instant %s %s", u, ctx)
    d = tick.asdict()
    mon.ok(d["bid"] == tick.bid and d["ask"] == tick.ask and d["spread"] == tick.spread and d["value"] == tick.value
           and instant(d["datetime"]) == us, "accepted", "as a dictionary: %s %s", d, ctx)
    text = tick.asdict(datetime_to_str=True)["datetime"]
    mon.ok(text == tick.datetime.datetime.strftime("%Y-%m-%d %H:%M:%S"), "local", "datetime as text %s %s", text, ctx)
