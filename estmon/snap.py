"""Snapshots of what the public interface shows of frames, indicators, trades, strategies."""
from estmon.indic import PIVOT_LEVELS
from estmon.timeutil import instant

CLOSING = ("close", "closed")


def tick_key(t):
    return (instant(t.datetime), t.bid, t.ask, t.value, t.spread)


def indicator(v, spec):
    """{field: value} of an indicator value; fields of CLOSING change when the frame closes."""
    if v is None:
        return None
    kind = spec["kind"]
    out = {"closed": v.closed, "nb_ticks": v.nb_ticks}
    if kind in ("candle", "ha"):
        for name in ("open", "high", "low", "last", "close", "height", "body", "head", "tail"):
            out[name] = getattr(v, name)
        out["color"] = getattr(v.color, "name", None)
    elif kind in ("pivot", "olhc"):
        for name in ("pivot",) + PIVOT_LEVELS:
            out[name] = getattr(v, name)
    elif kind == "sma":
        out["averages"] = [v.get_value(p) for p in range(1, ind_periods(spec))]
    elif kind == "rsi":
        out["value"] = v.value
    for name in ("first_tick", "high_tick", "low_tick", "last_tick"):
        out[name] = tick_key(getattr(v, name))
    return out


def ind_periods(spec):
    return min(spec["n"], 10) + 2


def frame(f, fspec):
    out = {"start": instant(f.period_start), "end": f.period_end and instant(f.period_end),
           "nb_ticks": f.nb_ticks, "closed": f.closed}
    for name in ("first_tick", "high_tick", "low_tick", "last_tick"):
        out[name] = tick_key(getattr(f, name))
    for ind in fspec["indicators"]:
        v = indicator(f[ind["ref"]], ind)
        if v is None:
            out[ind["ref"]] = None
        else:
            for name, x in v.items():
                out[ind["ref"] + "." + name] = x
    return out


def frame_set(fs, fspec):
    return [frame(f, fspec) for f in fs.frames]


def trade(t):
    return {
        "direction": t.direction.name, "status": None, "open_quantity": t.open_quantity,
        "open_value": t.open_value, "close_value": t.current_close_value,
        "opened": t.opened_quantities, "closed": t.closed_quantities, "is_closed": t.closed,
        "result": t.result, "opened_result": t.opened_result, "closed_result": t.closed_result,
        "avg": t.result_avg, "max": t.max_result, "min": t.min_result,
        "datetime": instant(t.datetime), "meta": dict(t.meta),
        "closes": [(c.quantity, c.close_value, instant(c.datetime), c.result, c.result_avg) for c in t.closes],
    }


def strategy(s):
    return {"result": s.result(), "profit_factor": s.profit_factor(), "trades": len(list(s.get_trades())),
            "open": len(list(s.get_trades(open_only=True))), "stopped": s.stopped,
            "paused": s.paused_until and instant(s.paused_until)}


def epic(x):
    return {"market_open": x.market_open, "last": tick_key(x.last_tick)}


def world(w):
    out = {}
    for i, x in enumerate(w.epics):
        out[f"epic{i}"] = epic(x)
        for k, fs in enumerate(w.frame_sets[i]):
            out[f"frames{i}.{k}"] = frame_set(fs, w.spec["epics"][i]["frame_sets"][k])
    for i, s in enumerate(w.strategies):
        out[f"strategy{i}"] = strategy(s)
    names = {id(t): i for i, t in enumerate(w.trades)}
    for i, t in enumerate(w.trades):
        out[f"trade{i}"] = trade(t)
    for i, s in enumerate(w.strategies):
        out[f"listed{i}"] = [names.get(id(t), "?") for t in s.get_trades()]
    for i, p in enumerate(w.providers):
        out[f"provider{i}"] = [names.get(id(t), "?") for t in p.opened_trades]
    return out


def diff(a, b, path=""):
    """First difference between two snapshots (numbers compared up to float noise)."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k} disappeared"
            d = diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        for k in b:
            if k not in a:
                return f"{path}.{k} appeared"
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} items against {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, (int, float)):
        if not isinstance(a, bool) and not isinstance(b, bool) and abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)):
            return None
    return None if a == b and type(a == b) is bool and (a is None) == (b is None) else f"{path}: {a!r} against {b!r}"
