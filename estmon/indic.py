"""Oracles for the values of indicators, given the ticks they are about."""
from fractions import Fraction

CENT = 0.005 + 1e-6
EPS = 1e-6


def exact(x):
    return Fraction(x)


def cents(x):
    """Is x a number of cents (up to float noise)?"""
    return abs(x * 100 - round(x * 100)) < 1e-4


def reported(mon, got, want, key, what, ctx):
    """`got` is `want` rounded to the cent (either neighbour of a tie)."""
    mon.ok(isinstance(got, (int, float)), key, "%s is %r %s", what, got, ctx)
    mon.near(got, want, CENT + 1e-9 * abs(float(want)), key, "%s %s", what, ctx)
    mon.ok(cents(got), key, "%s is %r, not a number of cents %s", what, got, ctx)


def judge_body(mon, v, ctx):
    """Everything deriving from open, high, low and last of a candle."""
    o, h, l, c = v.open, v.high, v.low, v.last
    mon.near(v.height, exact(h) - exact(l), EPS, "height", "height %s", ctx)
    mon.near(v.body, abs(exact(o) - exact(c)), EPS, "body", "body %s", ctx)
    mon.near(v.head, exact(h) - max(exact(o), exact(c)), EPS, "head", "head %s", ctx)
    mon.near(v.tail, min(exact(o), exact(c)) - exact(l), EPS, "tail", "tail %s", ctx)
    name = getattr(v.color, "name", None)
    want = "GREEN" if c > o else "RED" if c < o else "BLACK"
    mon.ok(name == want, "color", "color is %s instead of %s %s", name, want, ctx)
    mon.ok(l <= min(o, c) and max(o, c) <= h, "order", "low %s, open %s, last %s, high %s %s", l, o, c, h, ctx)


def judge_close(mon, v, closed, ctx):
    if closed:
        mon.ok(v.close is not None and v.close == v.last, "close", "close is %r, last is %r %s", v.close, v.last, ctx)
    else:
        mon.ok(v.close is None, "close", "close of a candle in progress is %r %s", v.close, ctx)
    mon.ok(v.closed is closed, "close", "closed flag is %r %s", v.closed, ctx)


def judge_candle(mon, v, ticks, closed, ctx):
    values = [t.value for t in ticks]
    mon.near(v.open, values[0], EPS, "open", "open %s", ctx)
    mon.near(v.last, values[-1], EPS, "last", "last %s", ctx)
    mon.near(v.high, max(values), EPS, "high", "high %s", ctx)
    mon.near(v.low, min(values), EPS, "low", "low %s", ctx)
    judge_close(mon, v, closed, ctx)
    judge_body(mon, v, ctx)


def judge_ha(mon, v, ticks, prev, closed, ctx, judge_open=True):
    """`prev` is the value of the previous candle, None for the first one."""
    values = [exact(t.value) for t in ticks]
    mean = (values[0] + max(values) + min(values) + values[-1]) / 4
    reported(mon, v.last, mean, "last", "last", ctx)
    if judge_open:
        if prev is None:
            mon.near(v.open, values[0], EPS, "open", "open of the first candle %s", ctx)
        else:
            reported(mon, v.open, (exact(prev.open) + exact(prev.last)) / 2, "open", "open", ctx)
    mon.near(v.high, max(exact(v.open), max(values), exact(v.last)), EPS, "high", "high %s", ctx)
    mon.near(v.low, min(exact(v.open), min(values), exact(v.last)), EPS, "low", "low %s", ctx)
    judge_close(mon, v, closed, ctx)
    judge_body(mon, v, ctx)


class Seen:
    """What a candle was seen to show, without keeping it in memory."""

    def __init__(self, v):
        self.open, self.last = v.open, v.last


PIVOT_LEVELS = ("support1", "support2", "support3", "resistance1", "resistance2", "resistance3")


def judge_pivot(mon, v, kind, ticks, prev_ticks, ctx):
    if prev_ticks is None:
        for name in ("pivot",) + PIVOT_LEVELS:
            mon.ok(getattr(v, name) is None, "no_past", "%s without previous period is %r %s", name,
                   getattr(v, name), ctx)
        return
    values = [exact(t.value) for t in prev_ticks]
    h, l, c = max(values), min(values), values[-1]
    if kind == "pivot":
        want = (h + l + c) / 3
    else:
        want = (h + l + c + exact(ticks[0].value)) / 4
    p = v.pivot
    reported(mon, p, want, "pivot", "pivot", ctx)
    p = exact(p)
    for name, w in (("support1", 2 * p - h), ("resistance1", 2 * p - l), ("support2", p - (h - l)),
                    ("resistance2", p + (h - l)), ("support3", l - 2 * (h - p)),
                    ("resistance3", h + 2 * (p - l))):
        reported(mon, getattr(v, name), w, name, name, ctx)


def judge_sma(mon, v, closes, n, ctx, asked=None):
    """`closes`: last value of each period up to this one, oldest first."""
    for p in asked or range(1, n + 3):
        got = v.get_value(p)
        if p > min(n, len(closes)):
            mon.ok(got is None, "none", "average of %s periods is %r with %s periods known (max %s) %s", p, got,
                   len(closes), n, ctx)
        else:
            reported(mon, got, sum(exact(x) for x in closes[-p:]) / p, "average", f"average of {p} periods", ctx)


def judge_rsi(mon, v, closes, periods, ctx):
    """`closes`: last value of each period up to this one, oldest first."""
    changes = [exact(b) - exact(a) for a, b in zip(closes, closes[1:])]
    judge_rsi_changes(mon, v, changes, periods, ctx)


def judge_rsi_changes(mon, v, changes, periods, ctx):
    if len(changes) < periods:
        mon.ok(v.value is None, "none", "RSI is %r with %s changes known out of %s %s", v.value, len(changes), periods,
               ctx)
        return
    last = changes[-periods:]
    up = sum(c for c in last if c > 0)
    down = -sum(c for c in last if c < 0)
    got = v.value
    mon.ok(isinstance(got, (int, float)) and 0 <= got <= 100, "range", "RSI is %r %s", got, ctx)
    if down == 0:
        mon.ok(got == 100, "value", "RSI without a loss is %r %s", got, ctx)
    elif up == 0:
        mon.ok(got == 0, "value", "RSI without a gain is %r %s", got, ctx)
    else:
        mon.near(got, 100 - 100 / (1 + up / down), 0.005 + 1e-4, "value", "RSI %s", ctx)
        mon.ok(cents(got), "value", "RSI is %r, not rounded %s", got, ctx)
