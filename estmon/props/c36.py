"""C36: what a tick costs does not grow with the feed."""
import gc
import os
import sys
import types

from estmon import core, snap
from estmon.timeutil import SEC, at
from estmon.world import World

PROP = "C36"
TEMPLATES = [("work", 56, 900), ("memory", 40, 600)]
RULE = ("seeded periodic feeds, long enough to fill the frame sets many times or to put thousands of ticks in one frame, with all "
        "kinds of indicators, strategies which read them and a constant number of open trades; the instructions executed by the "
        "library (lines, branches, jumps and calls counted by sys.monitoring) or the memory it keeps (objects reachable, after a "
        "collection) are compared between successive parts of the feed; non-trivial: frames were dropped, or a frame received "
        "over 500 ticks; distinct: hash of the shape of the feed and of the costs")
REQUIRED = ("judged:work", "judged:memory", "frames_dropped", "long_frames", "trades_open")
SHRINK = ()
ASSUMPTIONS = ["the number of trades is constant: the books of providers and strategies keep every trade",
               "what the datetime libraries do below the library is not counted as its work"]
TOOL = 4
BLOCK = 20 * SEC


def gen_frames(rng, keep):
    """Frame sets which drop frames at each block, or (long) never end a frame."""
    out = []
    for k in range(rng.choice([1, 2, 2, 3])):
        r = rng.random()
        if r < 0.3:
            f = {"unit": "TICK", "q": rng.choice([1, 2, 3, 5])}
        elif r < 0.45:
            f = {"unit": "TICK", "q": 10 ** 6}
        elif r < 0.65:
            f = {"unit": rng.choice(["YEAR", "MONTH"]), "q": rng.choice([1, 2])}
        else:
            f = {"unit": "SECOND", "q": rng.choice([1, 2, 4])}
        max_ = rng.choice(keep)
        f.update(ref=f"F{k}", max=max_)
        pool = [{"kind": "candle"}, {"kind": "ha"}, {"kind": "pivot"}, {"kind": "olhc"}, {"kind": "sma", "n": rng.choice([2, 5, 20])}]
        if f["q"] <= 5:
            pool.append({"kind": "rsi", "n": rng.choice([x for x in (1, 2, 3, 7) if x * f["q"] <= max_])})
        rng.shuffle(pool)
        f["indicators"] = [dict(p, ref=f"i{j}", moo=rng.random() < 0.2) for j, p in enumerate(pool[: rng.randrange(1, 6)])]
        out.append(f)
    return out


def gen(template, rng):
    from estmon.gen import prices

    tz = rng.choice(["UTC", "Asia/Tokyo", "Asia/Kolkata", "Asia/Kathmandu"])
    frames = gen_frames(rng, (5, 10, 24))
    epic = {"tz": tz, "open": "00:00:00", "close": "23:59:59.999999", "days": [0, 1, 2, 3, 4, 5, 6], "holidays": [],
            "provider": None, "frame_sets": frames}
    size = rng.choice([5, 10, 20])
    # some ticks of a block come together, some frames have none
    offsets = sorted(rng.choice([rng.randrange(0, 20) * SEC, rng.randrange(0, BLOCK), rng.randrange(0, 6 * SEC)]) for _ in range(size))
    # 24 frames of 4 seconds are full after 5 blocks, 24 frames of 5 ticks after 24 blocks
    blocks = max(120, rng.choice([800, 1400] if template == "work" else [1500, 2500]) // size)
    # the whole feed is in a same local day
    start = at(rng.choice(["2020-01-01T00:00", "2019-03-05T07:40", "2024-02-29T20:00"]), tz)
    # work depends on the branches taken: same prices in all blocks; memory may depend on values never seen before
    quotes = prices(rng, size) * blocks if template == "work" else prices(rng, size * blocks, rng.choice(["forex", "jump", "big"]))
    feed = []
    for b in range(blocks):
        for o, (bid, ask) in zip(offsets, quotes[b * size:]):
            feed.append([0, start + b * BLOCK + o, bid, ask, "arrow:UTC"])
    actions = {}
    for k in range(rng.choice([0, 0, 1, 3, 6])):
        actions.setdefault("0", []).append([0, "between", "open", 1, rng.randrange(1, 4), None, "strategy", {}])
    return {"epics": [epic], "strategies": [{"epics": [0]}, {"epics": [0]}][: rng.choice([1, 2])], "feed": feed, "size": size,
            "actions": actions, "read": rng.random() < 0.7, "providers": []}


class Counter:
    """Counts what the library executes."""

    def __init__(self):
        self.n = 0
        self.root = os.path.join(os.path.realpath(core.REPO), "estrade") + os.sep
        self.mine = {}

    def seen(self, code, *_):
        known = self.mine.get(code)
        if known is None:
            known = self.mine[code] = os.path.realpath(code.co_filename).startswith(self.root)
        if not known:
            return sys.monitoring.DISABLE
        self.n += 1

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "estmon")
        kinds = (m.events.LINE, m.events.JUMP, m.events.BRANCH, m.events.CALL, m.events.PY_START)
        for k in kinds:
            m.register_callback(TOOL, k, self.seen)
        total = 0
        for k in kinds:
            total |= k
        m.set_events(TOOL, total)
        return self

    def __exit__(self, *_):
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.free_tool_id(TOOL)


def weight(roots):
    """Objects reachable from the roots and from the state of the library, with the sizes of the containers."""
    gc.collect()
    mine = [m.__dict__ for n, m in list(sys.modules.items()) if n.split(".")[0] == "estrade"]
    seen = {id(sys.modules)}
    stack = list(roots) + mine
    own = {id(m) for m in mine}
    total = 0
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (types.ModuleType, types.FrameType, types.CodeType, types.BuiltinFunctionType)) or \
                type(o).__module__.split(".")[0] in ("logging", "dateutil", "pytz", "zoneinfo", "threading", "_thread", "estmon"):
            continue
        if isinstance(o, (type, types.FunctionType)) and str(getattr(o, "__module__", "")).split(".")[0] != "estrade":
            continue
        total += 1 + (len(o) if isinstance(o, (list, dict, tuple, set)) and id(o) not in own else 0)
        stack.extend(gc.get_referents(o))
    return total


class Listener:
    def on_callback(self, world, s, name, e):
        if not world.spec["read"] or name != "tick" or world.index % 5:
            return
        for fs, fspec in zip(world.frame_sets[e], world.spec["epics"][e]["frame_sets"]):
            for offset in (0, 1, (fspec["max"] or 100) - 1):
                frame = world.epics[e].get_frame(fspec["ref"], offset)
                if frame is not None:
                    snap.frame(frame, fspec)
                for ind in fspec["indicators"]:
                    v = world.epics[e].get_indicator_value(fspec["ref"], ind["ref"], offset)
                    if v is not None:
                        v.previous, v.next
        for t in world.trades:
            t.result, t.max_result
        world.strategies[s].result()


def run(spec, mon):
    world = World(spec, Listener())
    feed, size = spec["feed"], spec["size"]
    blocks = len(feed) // size
    template = spec["template"]
    fspecs = spec["epics"][0]["frame_sets"]
    shape = [(f["unit"], f["q"], f["max"], [i["kind"] for i in f["indicators"]]) for f in fspecs]
    # after 30 blocks the frame sets which can be full are
    warm = 30
    marks = [warm + (blocks - warm) * k // 3 for k in range(4)]
    costs = []
    if template == "work":
        with Counter() as count:
            for b in range(blocks):
                if b in marks:
                    costs.append(count.n)
                for i in range(b * size, (b + 1) * size):
                    world.feed(i)
            costs.append(count.n)
        first, middle, last = [(costs[k + 1] - costs[k]) / ((marks[k + 1] - marks[k]) * size) for k in range(3)]
        mon.ok(first > 0, "counted", "nothing was counted")
        mon.ok(last <= 1.2 * first + 40, "work", "a tick costs %.0f, then %.0f, then %.0f instructions: %s", first, middle, last, shape)
        mon.ev("ticks", len(feed))
        mon.ev("instructions", costs[-1])
        mon.sig(shape, len(feed), round(first), round(last))
    else:
        roots = world.epics + world.strategies
        for b in range(blocks):
            if b in marks:
                costs.append(weight(roots))
            for i in range(b * size, (b + 1) * size):
                world.feed(i)
        costs.append(weight(roots))
        ticks = (marks[1] - marks[0]) * size
        growth = [costs[k + 1] - costs[k] for k in range(3)]
        mon.ok(not all(g > ticks / 20 for g in growth[1:]), "memory", "what is kept in memory (%s) grows by %s in successive "
               "parts of %s ticks: %s", costs[0], growth, ticks, shape)
        mon.ev("ticks", len(feed))
        mon.sig(shape, len(feed), costs[-1])
        if os.environ.get("C36_DEBUG"):
            print(costs, growth, ticks, shape)
    if os.environ.get("C36_DEBUG") and template == "work":
        print(first, middle, last, shape)
    for fs, f in zip(world.frame_sets[0], fspecs):
        if len(fs.frames) == f["max"]:
            mon.ev("frames_dropped")
            mon.nontrivial = True
        if fs.current.nb_ticks > 500:
            mon.ev("long_frames")
            mon.nontrivial = True
    if world.trades:
        mon.ev("trades_open", len(world.trades))
    world.join()
