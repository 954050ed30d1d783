"""A program which orders on slow providers, then ends: its requests must be handed over all the same (C08)."""
import json
import os
import sys
import threading
import time


def main(spec):
    from estmon.timeutil import SEC, make_datetime
    from estmon.world import lib

    L = lib()
    base = L.Backtests if spec["kind"] == "backtests" else L.BaseTradeProvider
    program = threading.current_thread()
    lock = threading.Lock()

    def tell(*what):
        with lock:
            os.write(1, (json.dumps(what) + "\n").encode())

    class Provider(base):
        def open_trade_request(self, trade):
            return self.send("open", trade)

        def close_trade_request(self, trade_close):
            return self.send("close", trade_close)

        def send(self, kind, obj):
            mine = threading.current_thread() is program
            if not mine:
                time.sleep(spec["ms"] / 1000)
            tell("request", kind, obj.meta["n"], mine)
            return obj

    epics = [L.Epic(ref=f"E{k}", trade_provider=Provider()) for k in range(spec["n_epics"])]
    strategy = L.BaseStrategy(ref="S")
    for e in epics:
        e.add_strategy(strategy)
        e.on_new_tick(L.Tick(datetime=make_datetime(1_600_000_000 * SEC, "arrow:UTC"), bid=10, ask=11))
    trades = []
    for n, (op, e, s, d, q, k, how, behaviour, ms) in enumerate(spec["ops"]):
        if op == "open":
            # one direction only: nothing is netted
            trade = strategy.open_trade(epics[e], direction=L.Direction.BUY, quantity=q, meta={"n": n})
            trades.append(trade)
            tell("order", "open", n)
        elif op == "close":
            able = [t for t in trades if not t.closed]
            if able:
                strategy.close_trade(able[k % len(able)], quantity=q, meta={"n": n})
                tell("order", "close", n)
    tell("end")
    if spec["end"] == "raise":
        raise RuntimeError("the program fails")
    if spec["end"] == "exit":
        sys.exit(0)


if __name__ == "__main__":
    main(json.loads(sys.stdin.read()))
