"""Builds a running system out of a spec, using the public interface only, and gives the
monitors a place to observe it: strategy callbacks, provider requests, objects returned.

Spec:
  providers : [{"kind": "backtests" | "manual"}]
  epics     : [{tz, open, close, days, holidays, provider, frame_sets: [...]}]
  strategies: [{"epics": [i, ...]}]
  feed      : [[epic, instant_us, bid, ask, style], ...]; a sixth element: the previous tick object is sent again
  sized     : strategies and providers define a length (their number of trades), as containers do
  late      : providers answer the first requests once the program is over
  actions   : {"<feed index>": [[strategy, callback, op, args...], ...]}
"""
import copy
import threading

from estmon.timeutil import make_datetime, parse_date, parse_time

BUY, SELL = 1, -1
SHARED = {"user": 1}


def lib():
    import estrade
    import estrade.enums as enums
    import estrade.exceptions as exceptions
    import estrade.graph as graph
    import estrade.graph.base_indicator as base_indicator
    import estrade.trade_provider as trade_provider

    class L:
        pass

    L.Epic, L.Tick, L.Trade = estrade.Epic, estrade.Tick, estrade.Trade
    L.BaseStrategy = estrade.BaseStrategy
    L.BaseTradeProvider = estrade.BaseTradeProvider
    L.Backtests = trade_provider.TradeProviderBacktests
    L.TradeClose = estrade.TradeClose
    L.BaseTickProvider = estrade.BaseTickProvider
    L.Unit, L.Direction, L.Status = enums.Unit, enums.TradeDirection, enums.TransactionStatus
    L.CandleType, L.CandleColor, L.PivotType = enums.CandleType, enums.CandleColor, enums.PivotType
    L.FrameSet = graph.FrameSet
    L.CandleSet, L.Pivot, L.RSI = graph.CandleSet, graph.Pivot, graph.RSI
    L.SMA = graph.SimpleMovingAverage
    L.BaseIndicator, L.BaseIndicatorValue = base_indicator.BaseIndicator, base_indicator.BaseIndicatorValue
    L.exc = exceptions
    return L


def make_indicator(L, spec):
    kind = spec["kind"]
    kw = {"ref": spec["ref"], "market_open_only": spec.get("moo", False)}
    if kind == "candle":
        return L.CandleSet(candle_type=L.CandleType.CLASSIC, **kw)
    if kind == "ha":
        return L.CandleSet(candle_type=L.CandleType.HEIKIN_ASHI, **kw)
    if kind == "pivot":
        return L.Pivot(pivot_type=L.PivotType.CLASSIC, **kw)
    if kind == "olhc":
        return L.Pivot(pivot_type=L.PivotType.OLHC, **kw)
    if kind == "sma":
        return L.SMA(max_periods=spec["n"], **kw)
    if kind == "rsi":
        return L.RSI(periods=spec["n"], **kw)
    raise ValueError(kind)


def make_frame_set(L, spec):
    fs = L.FrameSet(unit=L.Unit[spec["unit"]], unit_quantity=spec["q"], ref=spec["ref"],
                    **({"max_frames_in_memory": spec["max"]} if spec.get("max") else {}))
    return fs


def make_epic(L, spec, provider=None, ref=None):
    kw = {"timezone": spec["tz"], "open_time": parse_time(spec["open"]),
          "close_time": parse_time(spec["close"]), "trade_days": list(spec["days"]),
          "holidays": [parse_date(d) for d in spec["holidays"]]}
    if provider is not None:
        kw["trade_provider"] = provider
    if spec.get("defaults"):
        # what is the default is not given
        for key, value in (("holidays", []), ("trade_days", [0, 1, 2, 3, 4])):
            if kw[key] == value:
                del kw[key]
    return L.Epic(ref=ref or spec.get("ref"), **kw)


def make_tick(L, item):
    _, us, bid, ask, style = item[:5]
    return L.Tick(datetime=make_datetime(us, style), bid=bid, ask=ask)


def sized(base, spec):
    """A class whose instances have a length: false as long as they have no trade."""
    if not spec.get("sized"):
        return base

    class Sized(base):
        def __len__(self):
            return len(self.trades)

    return Sized


class World:
    def __init__(self, spec, listener=None):
        self.L = L = lib()
        self.spec = spec
        self.listener = listener
        self.user_meta = dict(SHARED)
        self.gate = threading.Event()  # released when the program is over
        self.index = -1  # index of the feed item being processed
        self.providers = [self._provider(p) for p in spec.get("providers", [])]
        self.epics = []
        for i, e in enumerate(spec["epics"]):
            p = e.get("provider")
            epic = make_epic(L, e, None if p is None else self.providers[p], ref=e.get("ref", f"E{i}"))
            self.epics.append(epic)
        self.frame_sets = []
        for i, e in enumerate(spec["epics"]):
            row = []
            for f in e.get("frame_sets", ()):
                fs = make_frame_set(L, f)
                for ind in f.get("indicators", ()):
                    fs.add_indicator(make_indicator(L, ind))
                self.epics[i].add_frame_set(fs)
                row.append(fs)
            self.frame_sets.append(row)
        world = self

        class Strategy(sized(L.BaseStrategy, spec)):
            def on_market_open(self, epic):
                world._callback(self.number, "open", epic)

            def on_market_close(self, epic):
                world._callback(self.number, "close", epic)

            def on_every_tick_market_open(self, epic):
                world._callback(self.number, "tick_open", epic)

            def on_every_tick(self, epic):
                world._callback(self.number, "tick", epic)

        self.strategies = []
        for i, s in enumerate(spec.get("strategies", ())):
            strategy = Strategy(ref=s.get("ref", f"S{i}"))
            strategy.number = i
            self.strategies.append(strategy)
            for e in s["epics"]:
                self.epics[e].add_strategy(strategy)
        self.epic_index = {id(e): i for i, e in enumerate(self.epics)}
        self.trades = []  # every trade object returned by an opening, in order
        self.origin = []  # (strategy or None, epic) numbers of self.trades
        self.actions = {int(k): v for k, v in spec.get("actions", {}).items()}
        self.sent = {}  # epic -> last item and tick sent
        self.last = [None] * len(self.epics)  # last accepted (us, bid, ask)

    def _provider(self, p):
        if p["kind"] == "backtests":
            return self.late(sized(self.L.Backtests, self.spec))()

        class Manual(sized(self.L.BaseTradeProvider, self.spec)):
            def open_trade_request(self, trade):
                return trade

            def close_trade_request(self, trade_close):
                return trade_close

        return self.late(Manual)()

    def late(self, base):
        """Providers whose requests last as long as the program."""
        if not self.spec.get("late"):
            return base
        gate, room = self.gate, threading.Semaphore(30)

        def wait():
            # the first ones only: each takes a thread
            if room.acquire(blocking=False):
                gate.wait(60)

        class Late(base):
            def open_trade_request(self, trade):
                wait()
                return super().open_trade_request(trade)

            def close_trade_request(self, trade_close):
                wait()
                return super().close_trade_request(trade_close)

        return Late

    # ------------------------------------------------------------------ running
    def _callback(self, s, name, epic):
        e = self.epic_index[id(epic)]
        if self.listener:
            hook = getattr(self.listener, "on_callback", None)
            if hook:
                hook(self, s, name, e)
        for action in self.actions.get(self.index, ()):
            if action[0] == s and action[1] == name:
                self.act(s, e, action[2:])

    def act(self, s, e, action):
        op = action[0]
        before = getattr(self.listener, "before_action", None)
        token = before(self, s, e, action) if before else None
        result = self._perform(s, e, action)
        after = getattr(self.listener, "after_action", None)
        if after:
            after(self, s, e, action, result, token)
        return op

    def arguments(self, extra):
        """Arguments of an order; some programs pass the same meta data to all of them."""
        kw = copy.deepcopy(extra)
        if "status" in kw:
            kw["status"] = self.L.Status[kw["status"]]
        if kw.get("meta") == SHARED:
            kw["meta"] = self.user_meta
        return kw

    def close_arguments(self, action):
        kw = self.arguments(action[4]) if len(action) > 4 else {}
        if action[2] is not None:
            kw["quantity"] = action[2]
        return kw

    def pick(self, action, s, open_only=True, e=None):
        """Trades a closing action may target (by strategy), newest last."""
        return [i for i, t in enumerate(self.trades)
                if self.origin[i][0] == s and (not open_only or not t.closed)]

    def _perform(self, s, e, action):
        L = self.L
        op = action[0]
        if op == "open":
            # ["open", direction, quantity, epic or None, how, extra kwargs]
            _, d, q, e2, how, extra = action
            e2 = e if e2 is None else e2
            if self.last[e2] is None:
                return None
            kw = self.arguments(extra)
            kw["direction"] = L.Direction(d)
            kw["quantity"] = q
            if how == "strategy" and s is not None:
                trade = self.strategies[s].open_trade(self.epics[e2], **kw)
                owner = s
            elif how == "epic" and s is not None:
                trade = self.epics[e2].open_trade(strategy=self.strategies[s], **kw)
                owner = s
            else:
                trade = self.epics[e2].open_trade(**kw)
                owner = None
            self.trades.append(trade)
            self.origin.append((owner, e2))
            return trade
        if op == "close":
            # ["close", k, quantity or None, how, extra]: k-th open trade of the strategy
            _, k, q, how = action[:4]
            ids = self.pick(action, s)
            if not ids:
                return None
            i = ids[k % len(ids)]
            trade = self.trades[i]
            kw = self.close_arguments(action)
            if how == "trade":
                return i, trade.close_from_epic(**kw)
            if how == "strategy" and s is not None:
                return i, self.strategies[s].close_trade(trade, **kw)
            return i, self.epics[self.origin[i][1]].close_trade(trade, **kw)
        if op == "close_again":
            _, k, q, how = action[:4]
            ids = [i for i in self.pick(action, s, open_only=False) if self.trades[i].closed]
            if not ids:
                return None
            i = ids[k % len(ids)]
            trade = self.trades[i]
            return i, self.epics[self.origin[i][1]].close_trade(trade, **self.close_arguments(action))
        if op == "close_all":
            # ["close_all", extra kwargs of each close]
            self.strategies[s].close_opened_trades(**(self.arguments(action[1]) if len(action) > 1 else {}))
            return True
        if op == "pause":
            self.strategies[action[1]].paused_until = make_datetime(action[2], action[3])
            return True
        if op == "unpause":
            self.strategies[action[1]].paused_until = None
            return True
        if op == "stop":
            self.strategies[action[1]].stopped = True
            return True
        if op == "market":
            # ["market", epic, {setting: value}]
            for key, value in action[2].items():
                if key == "holidays":
                    self.epics[action[1]].holidays.append(parse_date(value))
                else:
                    setattr(self.epics[action[1]], key, list(value) if key == "trade_days" else parse_time(value))
            return True
        if op == "restart":
            self.strategies[action[1]].stopped = False
            return True
        raise ValueError(op)

    def feed(self, i):
        item = self.spec["feed"][i]
        self.index = i
        e = item[0]
        same = list(item[1:4])
        if len(item) > 5 and e in self.sent and self.sent[e][0] == same:
            tick = self.sent[e][1]
        else:
            tick = make_tick(self.L, item)
        self.sent[e] = same, tick
        self.current_tick = tick
        self.previous_last = self.last[e]
        self.last[e] = (item[1], tick.bid, tick.ask)
        before = getattr(self.listener, "before_tick", None)
        if before:
            before(self, i, e, tick)
        try:
            self.epics[e].on_new_tick(tick)
        except BaseException as x:
            # a listener which made a strategy fail expects its exception here
            expects = getattr(self.listener, "on_exception", None)
            if not expects or not expects(self, i, e, x):
                raise
        after = getattr(self.listener, "after_tick", None)
        if after:
            after(self, i, e, tick)
        # actions performed by the program between two ticks
        for action in self.actions.get(i, ()):
            if action[1] == "between":
                self.act(action[0], e, action[2:])
        settled = getattr(self.listener, "settled", None)
        if settled:
            settled(self, i, e)

    def run(self):
        try:
            for i in range(len(self.spec["feed"])):
                self.feed(i)
        finally:
            self.gate.set()
        self.join()

    def join(self):
        self.gate.set()
        for p in {id(x.trade_provider): x.trade_provider for x in self.epics}.values():
            for t in p.threads:
                t.join(60)
