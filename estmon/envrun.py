"""Runs systems and tells what they show; executed in processes of various environments (C35)."""
import gc
import hashlib
import io
import json
import logging
import os
import shutil
import sys
import tempfile


def report(world, folder):
    """Contents of the files of a report, by kind."""
    from estrade.reporting.csv import ReportingCSV

    ReportingCSV(target_folder=folder).report(world.strategies)
    out = {}
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name), "rb") as f:
            # what comes first in the names is the date of the report
            out[name.split("_", 2)[-1]] = f.read().decode("utf-8", "backslashreplace")
    return out


class Log:
    def __init__(self):
        self.calls = []

    def on_callback(self, world, s, name, e):
        self.calls.append((s, name, e))


def readings(world):
    """What programs ask at the end, in the ways they may ask it."""
    out = []
    for s in world.strategies:
        some = list(s.get_trades(epics=list(world.epics)[:1]))
        out.append([s.result(s.get_trades()), s.profit_factor(s.get_trades(open_only=True)), s.result(trades=some),
                    s.profit_factor(some), sorted(s.epics), s.is_active(world.epics[0].last_tick.datetime)])
    for e, row in zip(world.epics, world.frame_sets):
        out.append([str(e), sorted(e.strategies), sorted(e.frame_sets), e.is_market_open()])
        for fs in row:
            out.append([[len(fs.frames), str(fs.unit)] + [str(e.get_frame(fs.ref, offset=k) is None) for k in range(4)]])
    for t in world.trades:
        out.append([str(v) for v in t.asdict().values()])
    out.append(refusals(world))
    return out


def refusals(world):
    """What invalid requests are answered."""
    import datetime

    import pytz

    L = world.L
    now = world.epics[0].last_tick.datetime
    e = world.epics[0]
    fs = L.FrameSet(unit=L.Unit.MINUTE, unit_quantity=5, ref="refused", max_frames_in_memory=3)
    e.add_frame_set(fs)

    def anterior():
        e.on_new_tick(L.Tick(datetime=now.shift(microseconds=-1), bid=1, ask=2))

    attempts = [
        lambda: L.Tick(datetime=now, bid=2, ask=1), lambda: L.Tick(datetime=now, bid=float("nan"), ask=1),
        lambda: L.Tick(datetime=now, bid="1", ask=2), lambda: L.Tick(datetime=now, bid=1, ask=None),
        lambda: L.Tick(datetime=datetime.datetime(2020, 1, 1), bid=1, ask=2), lambda: L.Tick(datetime="2020-01-01", bid=1, ask=2),
        anterior, lambda: L.Epic(timezone="Europe/Nowhere"), lambda: L.FrameSet(unit=L.Unit.MINUTE, unit_quantity=7),
        lambda: L.FrameSet(unit=L.Unit.HOUR, unit_quantity=0), lambda: L.FrameSet(unit=L.Unit.TICK, unit_quantity=-1),
        lambda: e.add_frame_set(L.FrameSet(unit=L.Unit.DAY, unit_quantity=1, ref="refused")),
        lambda: fs.add_indicator(L.RSI(periods=14, ref="r")), lambda: e.add_strategy(L.BaseStrategy(ref=next(iter(e.strategies), ""))),
        lambda: e.open_trade(direction="BUY", quantity=1), lambda: e.open_trade(direction=None, quantity=1),
        lambda: L.Epic(timezone=pytz.all_timezones[-1]),
    ]
    out = []
    for attempt in attempts:
        try:
            attempt()
            out.append("accepted")
        except Exception as x:
            out.append(type(x).__name__)
    return out


def observe(spec):
    """What a system shows: digests after each tick, all of it at the end."""
    from estmon import snap
    from estmon.world import World

    log = Log()
    world = World(spec, log)
    digests = []
    for i in range(len(spec["feed"])):
        world.feed(i)
        shown = repr((log.calls, snap.world(world), [x.last_tick.datetime.isoformat() for x in world.epics]))
        digests.append(hashlib.sha1(shown.encode()).hexdigest()[:12])
    world.join()
    asked = readings(world)
    here = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="env", dir=os.environ.get("ESTMON_TMP"))
    try:
        os.chdir(scratch)
        files = report(world, "reports")
    finally:
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
    # as another process would tell it
    return json.loads(json.dumps({"digests": digests, "calls": len(log.calls), "end": snap.world(world), "files": files, "asked": asked}))


def settle(mode):
    """Settings of the process itself."""
    if mode == "gc_off":
        gc.disable()
    elif mode == "gc_often":
        gc.set_threshold(5, 2, 2)
    elif mode == "logs":
        class Handler(logging.StreamHandler):
            def handleError(self, record):
                pass

        logging.basicConfig(level=logging.DEBUG, handlers=[Handler(io.StringIO())], format="%(asctime)s %(name)s %(message)s")
    elif mode == "no_logs":
        logging.disable(logging.CRITICAL)
    elif mode == "switch":
        sys.setswitchinterval(1e-6)


def main():
    task = json.loads(sys.stdin.buffer.read().decode("utf-8"))
    settle(task["mode"])
    import time

    import arrow  # type: ignore

    facts = {"now": time.time(), "encoding": io.TextIOWrapper(io.BytesIO()).encoding, "offset": -time.timezone,
             "hash": hash("estrade"), "optimised": not __debug__, "year": arrow.utcnow().year}
    from estmon import core

    out = []
    for spec in task["systems"]:
        try:
            out.append(["ok", observe(spec)])
        except BaseException as e:  # noqa: told to the parent
            import traceback

            kind = "library" if core._in_estrade(e.__traceback__) else "harness"
            out.append([kind, [type(e).__name__, traceback.format_exc(limit=-6)]])
    sys.stdout.buffer.write(json.dumps({"facts": facts, "out": out}).encode("ascii"))
    sys.stdout.buffer.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
